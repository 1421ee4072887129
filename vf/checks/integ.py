"""Monitors for SDE integration (I01-I10)."""
import numpy as np
import scipy.stats
import sdepy as sd
import sdepy.infrastructure as infra
from sdepy import SDE, SDEs, integrator, paths_generator, process

from ..core import Check
from .. import gen, stats
from .sources import rand_corr, rng_from, global_states

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


# ---------------------------------------------------------------------
# workloads
# ---------------------------------------------------------------------

def short_timeline(c, lo=1, hi=8, kind=None):
    n = c.choice([1, 2, 2, 3, 4, hi])
    n = max(lo, n)
    return gen.timeline(c, n, dtype=kind or c.choice(
        ['rand', 'rand', 'unif', 'neg', 'offset', 'int', 'geom', 'cross',
         'uint']
        if kind is None else [kind])) if not (
            kind is None and c.chance(.08)) else uint_timeline(c, n)


def uint_timeline(c, n):
    return np.cumsum(c.rng.integers(1, 4, size=n)).astype(
        c.choice([np.uint8, np.uint64]))


def steps_spec(c, tt):
    """steps parameter, as (argument factory, requested points, exact)"""
    a, b = float(tt[0]), float(tt[-1])
    w = max(b - a, 1.)
    k = c.choice(['none', 'none', 'int', 'int', 'list', 'arr', 'unsorted',
                  'gen', 'hit', 'close', 'empty', 'tuple', 'int0'])
    if k == 'none':
        return k, (lambda: None), np.array([]), True
    if k == 'int0':
        n = c.choice([0, 1, 2])
        pts = np.array([a, b][:n]) if n < 2 else np.array([a, b])
        return k, (lambda: n), pts, True
    if k == 'int':
        n = c.choice([3, 5, 10, 21])
        m = c.choice([int, np.int64, np.int32])(n)
        return k, (lambda: m), a + (b - a)*np.arange(n)/(n - 1), False
    if k == 'empty':
        return k, (lambda: []), np.array([]), True
    pts = a + w*(c.rng.random(c.int(1, 12))*1.6 - .3)
    if k == 'hit':    # points shared with the timeline, and repeated
        pts = np.concatenate((pts, c.rng.choice(np.asarray(tt, float),
                                                size=3), pts[:1]))
    if k == 'close':    # next to the timeline, or to each other
        f = np.asarray(tt, float)
        pts = np.concatenate((pts, f, pts))[:c.int(2, 30)]
        d = c.rng.choice([1e-9, 1e-11, 1e-13, 1e-15, 0.], size=pts.shape)
        pts = pts + d*w*c.rng.choice([-1., 1.], size=pts.shape)
        pts = np.concatenate((pts, np.nextafter(f, np.inf)[:2],
                              np.nextafter(f, -np.inf)[-2:]))
    if k != 'unsorted':
        pts = np.sort(pts)
    else:
        pts = c.rng.permutation(pts)
    f = {'list': lambda: pts.tolist(), 'gen': lambda: iter(pts.tolist()),
         'tuple': lambda: tuple(pts.tolist())}.get(k, lambda: pts.copy())
    return k, f, pts, True


def start_index(c, n):
    return c.choice([0, 0, -1, n - 1, n//2, c.int(0, n - 1),
                     -c.int(1, n), np.int64(c.int(0, n - 1))])


def judge_steps(c, touched, tt, pts, exact, t0, reverse, mech,
                adaptive=False):
    """touched: time points visited, starting point included"""
    x = np.asarray(touched, float)
    tt = np.asarray(tt, float)
    sgn = -1 if reverse else 1
    lim = tt[0] if reverse else tt[-1]
    c.check(x[0] == t0, mech + ':start', f'{x[0]} vs {t0}')
    c.check((np.diff(x)*sgn > 0).all(), mech + ':monotone', f'{x}')
    c.check(x[-1] == lim, mech + ':end', f'{x[-1]} vs {lim}')
    want = tt[(tt - t0)*sgn >= 0]
    c.check(np.isin(want, x).all(), mech + ':timeline-touched',
            f'{want} not all in {x}')
    ok = ((pts - t0)*sgn >= 0) & ((lim - pts)*sgn >= 0)
    pts = pts[ok]
    eps = 1e-12*(1 + np.abs(tt).max() + np.ptp(tt)) if not exact else 0
    near = lambda a, b: (np.abs(np.subtract.outer(a, b)) <= eps).any(axis=1)
    if pts.size:
        c.check(near(pts, x).all(), mech + ':steps-touched',
                f'{pts} not all in {x}')
    if not adaptive:
        extra = x[~(np.isin(x, want) | (
            near(x, pts) if pts.size else np.zeros(x.shape, bool)))]
        c.check(extra.size == 0, mech + ':extra-steps',
                f'{extra} for timeline {tt}, steps {pts}')
    c.ev('steps_observed', x.size - 1)


# =====================================================================
# I01 step schedule
# =====================================================================
I01 = new(
    'I01', 'an event tracing paths_generator subclass, run along random '
    'timelines with random steps, starting index, depth 2-4, adaptive '
    'steps; the trace is judged by an online checker; non-trivial: distinct '
    '(timeline kind, steps kind, i0, depth, adaptive)',
    required=['steps_observed', 'stores_observed', 'rejections_observed',
              'reverse_runs', 'adaptive_steps'])


class Tracer(paths_generator):
    """Values are serial numbers of computed steps"""

    def __init__(self, c, adaptive=0., fault=None, **kw):
        super().__init__(**kw)
        self.c, self.adaptive, self.fault = c, adaptive, fault
        self.runs, self.serial, self.exits = [], 0, 0
        self.r = c.sub_rng(5)

    def fresh(self):
        self.serial += 1
        return self.serial

    def check_itervars(self):
        c, iv = self.c, self.itervars
        for k in ('steps_tt', 'tt', 'xx', 'sw', 'xw', 'reverse'):
            c.check(k in iv, 'itervars', k)
        K = self.depth
        c.check(iv['sw'].shape == (K,) and iv['xw'].shape == (K,),
                'working-space-shape')
        for x in iv['xw']:
            c.check(x.shape == self.wshape + (self.paths,),
                    'working-space-shape', f'{x.shape}')
        c.check(len({id(x) for x in iv['xw']}) == K and not any(
            np.shares_memory(iv['xw'][i], iv['xw'][j])
            for i in range(K) for j in range(i)), 'working-space-aliased')
        c.check(iv['xx'].shape == iv['tt'].shape + self.xshape
                + (self.paths,), 'output-shape')
        d = np.diff(iv['tt'].astype(float))
        c.check((d < 0).all() if iv['reverse'] else (d > 0).all(),
                'itervars-order')
        return iv

    def begin(self):
        iv = self.check_itervars()
        K = self.depth
        run = dict(reverse=bool(iv['reverse']), log=[], stored=[],
                   tt=iv['tt'].copy(), ended=False, n=0)
        self.runs.append(run)
        self.c.check(iv['sw'][0] == iv['tt'][0] == iv['steps_tt'][0],
                     'begin-time')
        for k in range(K - 1):
            v = self.fresh()
            iv['xw'][k][...] = v
            run['log'].append((float(iv['sw'][k]), v))

    def next(self):
        iv, run, c = self.check_itervars(), self.runs[-1], self.c
        K = self.depth
        sw, xw = iv['sw'], iv['xw']
        # the last K-1 steps are found in the working space
        for k in range(K - 1):
            s, v = run['log'][k - (K - 1)]
            c.check(float(sw[k]) == s and (xw[k] == v).all(),
                    'working-space-content', f'{sw} vs {run["log"][-K:]}')
        i = iv['i']
        sgn = -1 if run['reverse'] else 1
        ahead = [t for t in run['tt'].astype(float)
                 if (t - float(sw[-2]))*sgn > 0]
        c.check(iv['tt'][i] == ahead[0], 'next-output-point',
                f"{iv['tt'][i]} vs {ahead[0]}")
        c.check((ahead[0] - float(sw[-1]))*sgn >= 0, 'target-beyond-output')
        run['n'] += 1
        if self.fault and run['n'] == self.fault[1]:
            ds = sw[-1] - sw[-2]
            self.faulted = True
            out = [t for t in run['tt'].astype(float)
                   if (t - float(sw[-1]))*sgn > 0]
            sw[-1] = {'over': out[0] if out and c.chance(.4) else
                      sw[-1] + ds*c.choice([1.2, 1.5, 3.]), 'back': sw[-2] - ds*.1,
                      'stuck': sw[-2], 'nan': np.nan}[self.fault[0]]
        elif self.adaptive and self.r.random() < self.adaptive \
                and run['n'] < 300:
            s = sw[-2] + (sw[-1] - sw[-2])*self.r.uniform(.2, .9)
            if (s - sw[-2])*sgn > 0 and (sw[-1] - s)*sgn > 0:
                sw[-1] = s
                c.ev('adaptive_steps')
        v = self.fresh()
        xw[-1][...] = v
        run['log'].append((float(sw[-1]), v))

    def store(self, i, k):
        iv, run, c = self.check_itervars(), self.runs[-1], self.c
        s, x = float(iv['sw'][k]), iv['xw'][k]
        c.check(s == float(iv['tt'][i]), 'store-time')
        c.check(dict((a, b) for a, b in run['log'])[s] == x.flat[0],
                'store-value')
        run['stored'].append((i, s, x.flat[0]))
        iv['xx'][i] = x.flat[0]
        c.ev('stores_observed')

    def end(self):
        self.check_itervars()
        self.runs[-1]['ended'] = True

    def exit(self, tt, xx):
        self.exits += 1
        return tt, xx


class Tracer3(Tracer):
    depth = 3


class Tracer4(Tracer):
    depth = 4


@I01.section(2500)
def schedule(c):
    tt = short_timeline(c, hi=12)
    n = tt.size
    sk, sf, pts, exact = steps_spec(c, tt)
    i0 = start_index(c, n)
    K = c.choice([2, 2, 2, 3, 4])
    adaptive = c.choice([0., 0., .5])
    paths = c.choice([1, 3])
    xs, ws = gen.dims(c, 2), gen.dims(c, 2)
    getinfo = c.chance(.8)
    j0 = int(np.arange(n)[i0])
    fl = tt.astype(float)
    t0 = fl[j0]
    back, forth = (i0 != 0), (i0 == 0 or i0 not in (-1, n - 1))
    if n == 1:
        back, forth = None, None    # either is fine
    # deeper algorithms need enough points on each side
    inside = np.unique(np.concatenate((fl, pts)))
    inside = inside[(inside >= fl[0]) & (inside <= fl[-1])]
    if K > 2:
        nb, nf = (inside <= t0).sum(), (inside >= t0).sum()
        if (i0 != 0 and nb < K) or nf < K or n == 1 or not exact:
            K = 2
    cls = {2: Tracer, 3: Tracer3, 4: Tracer4}[K]
    info = c.choice([None, {}, dict(mine=1)])
    dtype = c.choice([None, float, np.float32, complex])
    c.sig(sk=sk, n=n, i0=int(i0), K=K, adaptive=adaptive, kind=tt.dtype.kind,
          dtype=dtype, getinfo=getinfo)
    p = cls(c, adaptive=adaptive, paths=paths, xshape=xs, wshape=ws,
            dtype=dtype, steps=sf(), i0=i0, info=info, getinfo=getinfo)
    arg = tt if c.chance(.7) else tt.tolist()
    keep = tt.copy()
    rt, xx = p(arg)
    c.equal(tt, keep, 'timeline-modified')
    c.check(p.exits == 1, 'exit-count')
    rt = np.asarray(rt)
    c.equal(rt, np.asarray(arg), 'exit-timeline')
    if arg is tt:
        c.check(rt.dtype == tt.dtype, 'exit-timeline-dtype')
    c.check(xx.shape == (n,) + xs + (paths,), 'exit-shape')
    c.check(xx.dtype == np.dtype(dtype or float), 'exit-dtype')
    c.check(not hasattr(p, 'itervars'), 'itervars-left')
    dirs = [r['reverse'] for r in p.runs]
    c.check(len(dirs) == len(set(dirs)), 'direction-repeated', f'{dirs}')
    if back is not None:
        # i0 == -n is the first point
        c.check(True in dirs or j0 == 0, 'backward-run', f'{dirs} i0={i0}')
        c.check(False in dirs or j0 == n - 1, 'forward-run',
                f'{dirs} i0={i0}')
        # nothing to simulate beyond the ends of the timeline
        c.check(not (i0 == 0 and True in dirs)
                and not (i0 in (-1, n - 1) and False in dirs),
                'empty-run', f'{dirs} i0={i0} n={n}')
    else:
        c.check(len(dirs) >= 1, 'runs')
    expected = {}
    for r in p.runs:
        c.check(r['ended'], 'end-called')
        c.ev('reverse_runs', r['reverse'])
        s = [a for a, _ in r['log']]
        judge_steps(c, s, fl, pts, exact, t0, r['reverse'], 'schedule',
                    bool(adaptive))
        want = fl[:j0 + 1][::-1] if r['reverse'] else fl[j0:]
        c.equal(np.array([a for _, a, _ in r['stored']]), want,
                'stored-points')
        c.equal(np.array([i for i, _, _ in r['stored']]),
                np.arange(want.size), 'stored-index')
        for (_, s, v) in r['stored']:
            expected[s] = v
    for i in range(n):
        c.check((xx[i] == expected[fl[i]]).all(), 'output-values',
                f'{xx[i]} vs {expected[fl[i]]}')
    if getinfo:
        # pertains to the forward part only, if both are run
        r = p.runs[-1] if len(p.runs) == 1 else \
            [r for r in p.runs if not r['reverse']][0]
        d = p.info
        # (the initial condition is set, not computed)
        c.check(d['computed_steps'] == r['n'], 'info-computed-steps',
                f"{d['computed_steps']} vs {r['n']}")
        c.check(d['stored_steps'] == len(r['stored'])
                - sum(1 for _, s, _ in r['stored']
                      if s in [a for a, _ in r['log'][:K - 1]]),
                'info-stored-steps', f'{d}')
        c.check(d['t0'] == t0 and d['tmin'] == fl[0] and d['tmax'] == fl[-1],
                'info-times', f'{d}')
        if info is not None:
            c.check(p.info is info, 'info-dict')
            if 'mine' in info or info.get('mine') == 1:
                c.check(info['mine'] == 1, 'info-dict')
    else:
        c.check(set(p.info) <= {'mine'}, 'info-disabled', f'{p.info}')


@I01.section(400)
def step_violations(c):
    """A step beyond the target, or not moving, never goes unnoticed"""
    n = c.int(2, 6)
    tt = gen.timeline(c, n, dtype=c.choice(['rand', 'unif', 'int', 'cross']))
    i0 = c.choice([0, -1])
    _, sf, pts, exact = steps_spec(c, tt)
    kind = c.choice(['over', 'back', 'stuck', 'nan'])
    c.sig(kind=kind, n=n, i0=i0)
    p = Tracer(c, adaptive=c.choice([0., .3]), fault=(kind, c.int(1, n - 1)),
               steps=sf(), i0=i0)
    c.raises(RuntimeError, lambda: p(tt), 'step-violation-accepted', kind)
    c.check(getattr(p, 'faulted', False), 'fault-not-reached')


@I01.section(300)
def rejected(c):
    k = c.choice(['2d', 'scalar', 'decreasing', 'repeated', 'nan', 'i0big',
                  'i0small', 'i0float', 'i0slice', 'empty', 'depth',
                  'shuffled', 'i0list'])
    tt = np.cumsum(c.rng.random(4) + .1)
    c.sig(k=k, i=c.index % 5)

    class Shallow(Tracer):
        depth = c.choice([0, 1])
    f = lambda t=tt, cls=Tracer, **kw: (lambda: cls(c, **kw)(t))
    exc, g = {
        '2d': (ValueError, f(tt.reshape(2, 2))),
        'scalar': (ValueError, f(1.)),
        'decreasing': (ValueError, f(tt[::-1])),
        'repeated': (ValueError, f(np.append(tt, tt[-1]))),
        'nan': (ValueError, f(np.append(tt, np.nan))),
        'shuffled': (ValueError, f(tt[[0, 2, 1, 3]])),
        'i0big': (IndexError, f(i0=4)),
        'i0small': (IndexError, f(i0=-5)),
        'i0float': (IndexError, f(i0=1.)),
        'i0slice': (IndexError, f(i0=slice(0, 1))),
        'i0list': (IndexError, f(i0=[0, 1])),
        'empty': ((ValueError, IndexError), f(np.array([]))),
        'depth': (ValueError, f(cls=Shallow)),
    }[k]
    c.raises(exc, g, 'malformed-timeline-accepted', k)


@I01.section(200)
def custom_pace(c):
    """Steps may be dictated by subclasses; they complement the timeline"""
    n = c.int(2, 5)
    tt = gen.timeline(c, n, dtype='rand')
    pts = tt[0] + (tt[-1] - tt[0])*(c.rng.random(6)*1.4 - .2)

    class P(Tracer):
        def pace(self, timeline):
            self.seen = timeline
            return pts
    i0 = start_index(c, n)
    p = P(c, i0=i0)
    c.sig(n=n, i0=int(i0))
    p(tt)
    c.equal(p.seen, tt, 'pace-timeline')
    for r in p.runs:
        judge_steps(c, [a for a, _ in r['log']], tt, pts, True,
                    tt[i0], r['reverse'], 'pace')
        c.ev('reverse_runs', r['reverse'])


# =====================================================================
# I02 Euler-Maruyama recurrence
# =====================================================================

class Rec:
    """A recording stochasticity source"""

    def __init__(self, src, fn=None):
        self.src, self.paths, self.vshape = src, src.paths, src.vshape
        self.calls = []

    def __call__(self, t, dt):
        z = self.src(t, dt)
        self.calls.append((float(t), float(dt), np.array(z)))
        return z

    def run(self, reverse):
        """calls of the forward or backward part, as a dictionary
        {t: (dt, dz)}"""
        out = {}
        for t, dt, z in self.calls:
            if (dt < 0) == reverse:
                out.setdefault(t, []).append((dt, z))
        return out


class RecDj(Rec):
    @property
    def dn_value(self):
        return self.src.dn_value


def param(c, vshape, paths, scale=.4, base=0., times=None):
    """(argument, evaluator)"""
    k = c.choice(['scalar', 'scalar', 'value', 'path', 'full', 'fun',
                  'fun_arr', 'proc', 'list', 'int'])
    r = c.rng
    f = lambda sh: base + scale*r.normal(size=sh)
    if k == 'scalar':
        v = float(f(()))
        return k, v, lambda t: v
    if k == 'int':
        v = c.int(0, 1)
        return k, v, lambda t: v
    if k == 'value':
        v = f(vshape + (1,))
        return k, v, lambda t: v
    if k == 'path':
        v = f((paths,))
        return k, v, lambda t: v
    if k == 'full':
        v = f(vshape + (paths,))
        return k, v, lambda t: v
    if k == 'list':
        v = f(vshape + (1,))
        return k, v.tolist(), lambda t: v
    if k == 'fun':
        v = float(f(()))
        g = lambda t: v*np.cos(3*t)
        return k, g, g
    if k == 'fun_arr':
        v = f(vshape + (c.choice([1, paths]),))
        if c.chance(.5):
            g = lambda t: v + .2*scale*t/(1 + t*t)
            return k, g, g
        g = lambda t: v + .2*scale*t/(1 + t*t)
        return k, (lambda t: g(t).tolist()), g
    # a process, interpolated
    ts = np.array([-2000., -50., 0., 1., 5., 3000.])
    x = f((6,) + vshape + (c.choice([1, paths]),))
    p = process(ts, x=x)
    kind = c.choice(['linear', 'linear', 'previous', 'next'])
    if kind != 'linear':
        p.interp_kind = kind

    def ev(t):
        if kind != 'linear':
            j = (np.searchsorted(ts, t, side='right') - 1
                 if kind == 'previous' else np.searchsorted(ts, t))
            return x[np.clip(j, 0, 5)]
        j = np.clip(np.searchsorted(ts, t, side='right') - 1, 0, 4)
        w = np.clip((t - ts[j])/(ts[j+1] - ts[j]), 0, 1)
        return x[j]*(1 - w) + x[j+1]*w
    return k, p, ev


def make_sources(c, ids, paths, vshape, dtype=None):
    """recorded sources, of random classes, for given differentials"""
    out = {}
    rng = np.random.default_rng(int(c.sub_rng(3).integers(2**31)))
    kw = dict(paths=paths, vshape=vshape, rng=rng)
    ev = paths % 2 == 0
    for i in ids:
        if i == 'dw':
            cls = c.choice([sd.wiener_source, sd.true_wiener_source]
                           + [sd.odd_wiener_source]*ev)
            a = {}
            if vshape and c.chance(.5):
                a['corr'] = rand_corr(c, vshape[-1])
            out[i] = Rec(cls(**kw, **a))
        elif i == 'dn':
            cls = c.choice([sd.poisson_source, sd.true_poisson_source]
                           + [sd.even_poisson_source]*ev)
            out[i] = Rec(cls(lam=2., **kw))
        elif i == 'dj':
            cls = c.choice([sd.cpoisson_source, sd.even_cpoisson_source][:1+ev])
            out[i] = Rec(cls(lam=2., y=sd.norm_rv(.1, .3), **kw))
        elif i == 'dz':
            out[i] = Rec(c.choice([sd.wiener_source, sd.poisson_source])(
                **kw))
    return out


def chain(c, rec, tt, pts, exact, i0, reverse, mech):
    """steps taken, as seen by a source: [(t, dt, t_next)]"""
    d = rec.run(reverse)
    for t, v in d.items():
        c.check(len(v) == 1, mech + ':source-called-twice', f't={t}')
    ts = sorted(d, reverse=reverse)
    fl = np.asarray(tt, float)
    lim = fl[0] if reverse else fl[-1]
    t0 = fl[i0]
    seq = ts + [lim]
    if not ts:
        c.check(t0 == lim, mech + ':no-steps')
        return []
    judge_steps(c, seq, fl, pts, exact, t0, reverse, mech)
    for a, b in zip(seq[:-1], seq[1:]):
        c.close(d[a][0][0], b - a, mech + ':source-dt', f't={a}',
                rtol=1e-13)
    return [(a, d[a][0][0], b) for a, b in zip(seq[:-1], seq[1:])]


I02 = new(
    'I02', 'random equations (state, time and parameter dependent terms, '
    'any subset of differentials incl. custom ones), with recorded sources; '
    'outputs against the Euler-Maruyama recurrence evaluated on recorded '
    'increments; non-trivial: distinct (terms, parameter kinds, steps, i0)',
    required=['recurrence_steps', 'reverse_runs', 'steps_observed'])


def f_k(p, t, x):
    return p['k']*(p['theta'] - x)


TERMS = {
    'dt': [lambda p, t, x: p['k']*(p['theta'] - x),
           lambda p, t, x: p['theta'] + 0*x,
           lambda p, t, x: p['k']*np.sin(t)*x,
           lambda p, t, x: p['theta']],
    'dw': [lambda p, t, x: p['sigma'], lambda p, t, x: p['sigma']*x,
           lambda p, t, x: np.cos(x)*p['k'], lambda p, t, x: .3],
    'dn': [lambda p, t, x: .1*p['theta'], lambda p, t, x: -.2*x],
    'dj': [lambda p, t, x: 1, lambda p, t, x: .3*x*p['sigma']],
    'dz': [lambda p, t, x: .2*p['k'], lambda p, t, x: .05*x],
}


def terms(c):
    ids = [k for k in TERMS if c.chance(.7 if k in ('dt', 'dw') else .3)]
    if not ids:
        ids = ['dt']
    return {k: c.choice(TERMS[k]) for k in ids}


@I02.section(1800)
def recurrence(c):
    tt = short_timeline(c, hi=6)
    n = tt.size
    i0 = start_index(c, n)
    sk, sf, pts, exact = steps_spec(c, tt)
    vshape = gen.dims(c)
    paths = c.choice([1, 2, 3, 6])
    tm = terms(c)
    extra = {k for k in TERMS if c.chance(.15)}
    ids = set(tm) | extra
    if 'dt' not in ids and len(ids) == 0:
        ids = {'dt'}
    if not ids - {'dt'}:
        ids.add('dw')     # the recorded source is how steps are seen
    log = c.chance(.3)
    names = ['k', 'theta', 'sigma']
    args, evs, kinds = {}, {}, []
    for nm in names:
        kd, args[nm], evs[nm] = param(c, vshape, paths, scale=.3, base=.2)
        if kd.startswith('fun') and c.chance(.3) and not (
                exact is False or 1. in pts or 1. in tt):
            args[nm] = gen.partial_domain(c, args[nm])
        kinds.append(kd)
    xk, x0 = c.choice([('scalar', .7), ('value', None), ('path', None),
                       ('full', None), ('default', 1.)])
    if x0 is None:
        x0 = .5 + c.rng.random({'value': vshape + (1,), 'path': (paths,),
                                'full': vshape + (paths,)}[xk])
    dtype = c.choice([None, None, float, np.float32])
    sources = make_sources(c, ids - {'dt'}, paths, vshape, dtype)
    seen = []
    log_flag = log

    class P(SDE, integrator):
        log = log_flag

        def sde(self, t, x, k=1., theta=0., sigma=1.):
            seen.append((float(t), x.shape, [np.shape(k), np.shape(theta),
                                             np.shape(sigma)]))
            p = dict(k=k, theta=theta, sigma=sigma)
            return {i: f(p, t, x) for i, f in tm.items()}

        def source_dz(self, dz=None):
            return dz
    P.sources = set(ids)
    if 'dn' in ids and 'dj' in ids:
        # dj and dn share the dn keyword; dj is explicitly given
        pass
    kw = dict(args)
    kw.update(sources)
    if xk != 'default':
        kw['x0'] = x0
    c.sig(terms=sorted(tm), ids=sorted(ids), kinds=kinds, xk=xk, sk=sk,
          i0=int(i0), n=n, vshape=vshape, paths=paths, log=log,
          tk=tt.dtype.kind)
    keep = {k: np.array(v, copy=True) for k, v in kw.items()
            if isinstance(v, np.ndarray)}
    P_ = P(paths=paths, vshape=vshape if len(vshape) != 1 or c.chance(.5)
           else vshape[0], dtype=dtype, steps=sf(), i0=i0,
           getinfo=c.chance(.7), **kw)
    x = P_(tt)
    for k, v in keep.items():
        c.equal(kw[k], v, 'argument-modified', k)
    c.check(type(x) is process, 'result-type')
    c.equal(x.t, tt, 'result-timeline')
    c.check(x.t.dtype == tt.dtype, 'result-timeline-dtype')
    c.check(x.shape == (n,) + vshape + (paths,), 'result-shape', f'{x.shape}')
    c.check(x.dtype == np.dtype(dtype or float), 'result-dtype')
    full = vshape + (paths,)
    j0 = int(np.arange(n)[i0])
    fl = tt.astype(float)
    ref = {}
    init = np.broadcast_to(np.asarray(x0, float), full)
    ref[fl[j0]] = np.log(init) if log else init
    any_rec = next(iter(sources.values()))
    for reverse in (True, False):
        y = ref[fl[j0]]
        steps = chain(c, any_rec, tt, pts, exact, j0, reverse, 'euler')
        if steps:
            c.ev('reverse_runs', reverse)
        runs = {k: s.run(reverse) for k, s in sources.items()}
        for k, d in runs.items():
            c.check(sorted(d) == sorted(a for a, _, _ in steps),
                    'sources-in-step', k)
        for t, dt, t1 in steps:
            p = {nm: evs[nm](t) for nm in names}
            dx = 0.
            for i, f in tm.items():
                dz = dt if i == 'dt' else runs[i][t][0][1]
                dx = dx + f(p, t, y)*dz
            y = np.broadcast_to(y + dx, full)
            ref[t1] = y
            c.ev('recurrence_steps')
    want = np.stack([np.exp(ref[t]) if log else ref[t] for t in fl])
    ok = np.isfinite(want) & (np.abs(want) < 1e30)
    tol = 1e-9 if dtype is not np.float32 else 3e-4
    if dtype is np.float32:
        mag = np.abs(np.stack(list(ref.values()))).max()
        if not mag < 50:
            c.note(skipped='float32 conditioning')
            return
    c.close(np.where(ok, x.x, 0), np.where(ok, want, 0), 'euler-values',
            rtol=tol)
    ts = {t for t, _, _ in seen}
    for t, sh, _ in seen:
        c.check(sh == full, 'sde-x-shape')
    c.check(ts <= set(ref), 'sde-times')


@I02.section(500)
def hooks(c):
    """init, let, shapes, result and more, as overridden by subclasses"""
    vshape = gen.dims(c, 2)
    paths = c.choice([1, 4])
    F = c.int(1, 3)
    tt = short_timeline(c, lo=2, hi=5, kind=c.choice(['rand', 'int', 'cross']))
    n = tt.size
    i0 = start_index(c, n)
    log_flag = c.chance(.4)
    calls = dict(init=[], let=[], result=[], more=[])
    w = vshape + (F, paths)

    class P(SDE, integrator):
        sources = {'dt', 'dw'}
        log = log_flag

        def more(self, factors=1, label='?'):
            calls['more'].append((factors, label))

        def shapes(self, vshape):
            return vshape, vshape + (2,), vshape + (self.args['factors'],)

        def init(self, t, out_x, a=1., b=2.):
            calls['init'].append((float(t), out_x.shape, type(a), type(b)))
            out_x[...] = a + b

        def sde(self, t, x, sigma=.5):
            return {'dt': sigma, 'dw': sigma}

        def let(self, t, out_x, x):
            calls['let'].append((float(t), out_x.shape, x.shape))
            out_x[..., 0, :] = x.sum(axis=-2)
            out_x[..., 1, :] = t

        def result(self, tt, xx):
            calls['result'].append((np.array(tt), xx.shape))
            return 'done', tt, xx
    rec = Rec(sd.wiener_source(vshape=vshape + (F,), paths=paths,
                               rng=np.random.default_rng(c.index)))
    a, b = .5, c.rng.random(w) + .2
    p = P(paths=paths, vshape=vshape, factors=F, label='hello', a=a, b=b,
          dw=rec, i0=i0, sigma=lambda t: .1*t)
    r = p(tt)
    c.sig(vshape=vshape, F=F, paths=paths, n=n, i0=int(i0), log=log_flag)
    c.check(calls['more'] == [(F, 'hello')], 'more-called')
    fl = tt.astype(float)
    j0 = int(np.arange(n)[i0])
    for t, sh, ta, tb in calls['init']:
        c.check(t == fl[j0] and sh == w and ta is np.ndarray
                and tb is np.ndarray, 'init-called')
    c.check(1 <= len(calls['init']) <= 2, 'init-called')
    c.check({t for t, _, _ in calls['let']} == set(fl), 'let-called')
    for _, o, s in calls['let']:
        c.check(o == vshape + (2, paths) and s == w, 'let-shapes')
    c.check(len(calls['result']) == 1 and r[0] == 'done', 'result-called')
    c.equal(r[1], tt, 'result-timeline')
    xx = r[2]
    y0 = np.broadcast_to(a + b, w)
    y0 = np.log(y0) if log_flag else y0
    ref = {fl[j0]: y0}
    for reverse in (True, False):
        y = y0
        for t, dt, t1 in chain(c, rec, tt, np.array([]), True, j0, reverse,
                               'hooks'):
            y = y + .1*t*dt + .1*t*rec.run(reverse)[t][0][1]
            ref[t1] = y
            c.ev('recurrence_steps')
            c.ev('reverse_runs', reverse)
    g = np.exp if log_flag else (lambda z: z)
    c.close(xx[..., 0, :], np.stack([g(ref[t].sum(axis=-2)) for t in fl]),
            'let-values', rtol=1e-9)
    c.close(xx[..., 1, :], np.stack([np.broadcast_to(g(t), vshape + (paths,))
                                     for t in fl]), 'let-times', rtol=1e-12)


@I02.section(500)
def progress(c):
    """the integration progress, as shown to the info_* methods"""
    vshape, paths = gen.dims(c, 2), c.choice([1, 3])
    tt = short_timeline(c, hi=5)
    n = tt.size
    i0 = start_index(c, n)
    j0 = int(np.arange(n)[i0])
    sk, sf, pts, exact = steps_spec(c, tt)
    tm = terms(c)
    ids = set(tm) | {'dw'}
    log_flag, getinfo = c.chance(.3), c.chance(.85)
    w = vshape + (paths,)
    rec = make_sources(c, ids - {'dt'}, paths, vshape)
    seen, given = [], []

    class P(SDE, integrator):
        sources = ids
        log = log_flag

        def source_dz(self, dz=None):
            return dz

        def sde(self, t, x, k=.3, theta=.2, sigma=.1):
            p = dict(k=k, theta=theta, sigma=sigma)
            A = {i: f(p, t, x) for i, f in tm.items()}
            given.append((float(t), np.array(x), A))
            return A

        def look(self, event):
            iv = self.itervars
            c.check(iv['sw'].shape == (2,) and iv['xw'].shape == (2,)
                    and all(z.shape == w for z in iv['xw'])
                    and iv['xx'].shape == (iv['tt'].size,) + w,
                    'progress-shapes', event)
            fl = tt.astype(float)
            want = fl[:j0 + 1][::-1] if iv['reverse'] else fl[j0:]
            c.equal(iv['tt'], want, 'progress-timeline')
            c.check(set(want) <= set(iv['steps_tt'].tolist()),
                    'progress-timeline')
            sg = -1 if iv['reverse'] else 1
            c.check((np.diff(iv['steps_tt'])*sg > 0).all(),
                    'progress-timeline')
            d = {k: np.array(iv[k]) for k in (
                'last_x', 'new_x', 'last_t', 'last_dt') if k in iv}
            for k in ('last_A', 'last_dZ'):
                if k in iv:
                    d[k] = {a: np.array(b) for a, b in iv[k].items()}
            d['sw'] = iv['sw'].copy()
            d['xw'] = [np.array(z) for z in iv['xw']]
            d['i'] = iv.get('i')
            seen.append((event, iv['reverse'], d))

        def info_begin(self):
            self.look('begin')

        def info_next(self):
            self.look('next')

        def info_store(self):
            self.look('store')

        def info_end(self):
            self.look('end')
    P_ = P(paths=paths, vshape=vshape, steps=sf(), i0=i0, getinfo=getinfo,
           x0=.5 + c.rng.random(w), **rec)
    x = P_(tt)
    c.sig(sk=sk, n=n, i0=int(i0), vshape=vshape, terms=sorted(tm),
          log=log_flag, getinfo=getinfo)
    if not getinfo:
        c.check(not seen, 'progress-disabled')
        return
    fl = tt.astype(float)
    first = seen[0][2]
    c.check(np.isnan(first['xw'][1]).all(), 'progress-initial')
    k, calls = 0, {i: list(r.calls) for i, r in rec.items()}
    calls['dt'] = None
    for run in [r for r in (True, False) if any(e[1] == r for e in seen)]:
        ev = [(e, d) for e, r, d in seen if r == run]
        names = [e for e, _ in ev]
        c.check(names[:2] == ['begin', 'store'] and names[-1] == 'end'
                and names.count('begin') == names.count('end') == 1,
                'progress-sequence', f'{names}')
        stored, t, y = [], None, None
        for j, (e, d) in enumerate(ev):
            if e == 'begin':
                t, y = float(d['sw'][0]), d['xw'][0]
                c.check(t == fl[j0], 'progress-start')
            elif e == 'next':
                c.check({'last_x', 'new_x', 'last_t', 'last_dt', 'last_A',
                         'last_dZ'} <= set(d), 'progress-items', f'{set(d)}')
                c.check(d['last_t'] == t, 'progress-time')
                c.equal(d['last_x'], y, 'progress-last-x')
                g = given[k]
                c.check(g[0] == t, 'progress-sde-calls')
                c.equal(g[1], y, 'progress-sde-calls')
                c.check(set(d['last_A']) == set(tm), 'progress-terms')
                for i in tm:
                    c.equal(d['last_A'][i], np.asarray(g[2][i]),
                            'progress-terms', i)
                c.check(set(d['last_dZ']) == set(ids), 'progress-sources',
                        f"{set(d['last_dZ'])}")
                for i in ids:
                    if i == 'dt':
                        want = d['last_dt']
                    else:
                        a, da, want = calls[i][k]
                        c.check(a == t and da == d['last_dt'],
                                'progress-source-calls')
                    c.equal(np.broadcast_to(d['last_dZ'][i], np.shape(want)),
                            want, 'progress-sources', i)
                dx = sum(d['last_A'][i]*d['last_dZ'][i] for i in tm)
                c.close(d['new_x'], np.broadcast_to(y + dx, w),
                        'progress-new-x', rtol=1e-12)
                t, y = float(d['sw'][1]), d['new_x']
                c.close(t, float(d['last_t'] + d['last_dt']),
                        'progress-time', rtol=1e-12, atol=1e-12)
                k += 1
                c.ev('recurrence_steps')
                c.ev('reverse_runs', run)
            elif e == 'store':
                stored.append(t)
        c.equal(np.array(stored), fl[:j0 + 1][::-1] if run else fl[j0:],
                'progress-stores')
    c.check(k == len(given), 'progress-steps')
    c.check(not hasattr(P_, 'itervars'), 'itervars-left')
    c.ev('steps_observed', k)


# =====================================================================
# I03 systems of equations
# =====================================================================
I03 = new(
    'I03', 'random systems of 1-4 coupled equations, scalar and multi '
    'valued, with and without an added axis, log or not; separate results '
    'against the recurrence on recorded and documented dispatch of source '
    'components; non-trivial: distinct (q, addaxis, vshape, terms)',
    required=['recurrence_steps', 'rejections_observed'])


def dispatch(z, i, q, vshape, addaxis):
    """component of source values for the i-th equation"""
    z = np.asarray(z)
    if z.ndim == 0:
        return z
    if addaxis:
        return z[..., i, :]
    N = vshape[-1]
    return z[..., i*N:(i + 1)*N, :]


@I03.section(1500)
def systems(c):
    q = c.choice([1, 2, 2, 3, 4])
    vshape = gen.dims(c)
    addaxis = c.chance(.5)
    eff = addaxis or vshape == ()
    wshape = vshape + (q,) if eff else vshape[:-1] + (vshape[-1]*q,)
    paths = c.choice([1, 2, 5])
    tt = short_timeline(c, hi=5, kind=c.choice(['rand', 'int', 'cross']))
    n = tt.size
    i0 = start_index(c, n)
    j0 = int(np.arange(n)[i0])
    fl = tt.astype(float)
    log_flag = c.chance(.4)
    full = vshape + (paths,)
    # drift and diffusion of equation i mixes all variables
    M = c.rng.normal(size=(q, q))*.2
    idsets = [[k for k in ('dt', 'dw', 'dn') if c.chance(.7)]
              for _ in range(q)]
    mode = c.choice(['class', 'class', 'integrate'])
    ids = set(sum(idsets, []))
    if mode == 'class':
        ids |= {'dw'}
    if 'dw' not in ids:
        idsets[0].append('dw')
        ids |= {'dw'}
    mu_k, mu, mu_ev = param(c, vshape, paths, scale=.2)

    def eqs(t, xs, mu):
        out = []
        for i in range(q):
            a = sum(M[i, j]*xs[j] for j in range(q))
            d = {}
            for k in idsets[i]:
                d[k] = {'dt': mu + a, 'dw': .2*np.cos(a), 'dn': .1}[k]
            out.append(d)
        return out
    ret = c.choice([tuple, list])
    sig = ', '.join(f'x{i}' for i in range(q))
    ns = dict(eqs=eqs, ret=ret, np=np)
    src = rec_sources(c, ids - {'dt'}, paths, wshape)
    if mode == 'class':
        exec(f'def sde(self, t, {sig}, mu=0.):\n'
             f'    return ret(eqs(t, [{sig}], mu))', ns)
        q_ = q

        class P(SDEs, integrator):
            q = q_
            sources = ids
            log = log_flag
            sde = ns['sde']
        P.addaxis = addaxis
        addargs = {}
    else:
        exec(f'def sde(t, {sig}, mu=0.):\n'
             f'    return ret(eqs(t, [{sig}], mu))', ns)
        P = sd.integrate(ns['sde'], q=q, sources=ids, log=log_flag,
                         addaxis=addaxis)
    x0k = c.choice(['scalar', 'vector', 'full', 'default', 'list'])
    if x0k == 'scalar':
        x0, x0s = .8, [.8]*q
    elif x0k == 'default':
        x0, x0s = None, [1.]*q
    elif x0k == 'vector':
        v = .5 + c.rng.random(q)
        x0, x0s = tuple(v), list(v)
    elif x0k == 'full':
        v = .5 + c.rng.random((q,) + full)
        x0, x0s = v, list(v)
    else:
        v = .5 + c.rng.random((q,) + vshape + (1,))
        x0, x0s = v.tolist(), list(v)
    kw = dict(src)
    if x0 is not None:
        kw['x0'] = x0
    c.sig(q=q, vshape=vshape, addaxis=addaxis, ids=[sorted(s) for s in idsets],
          mode=mode, x0k=x0k, mu=mu_k, log=log_flag, i0=int(i0))
    p = P(paths=paths, vshape=vshape, i0=i0, mu=mu,
          steps=c.choice([None, 3]), **kw)
    res = p(tt)
    c.check(isinstance(res, (tuple, list)) and len(res) == q,
            'systems-results')
    steps_pts = np.array([]) if p.steps is None else \
        fl[0] + (fl[-1] - fl[0])*np.arange(3)/2
    init = [np.broadcast_to(np.asarray(v, float), full) for v in x0s]
    if log_flag:
        init = [np.log(v) for v in init]
    ref = {fl[j0]: init}
    rec = src['dw']
    for reverse in (True, False):
        xs = init
        steps = chain(c, rec, tt, steps_pts, p.steps is None, j0, reverse,
                      'systems')
        runs = {k: s.run(reverse) for k, s in src.items()}
        for t, dt, t1 in steps:
            A = eqs(t, xs, mu_ev(t))
            nx = []
            for i in range(q):
                y = xs[i]
                for k, a in A[i].items():
                    dz = dt if k == 'dt' else dispatch(
                        runs[k][t][0][1], i, q, vshape, eff)
                    y = y + a*dz
                nx.append(np.broadcast_to(y, full))
            xs = nx
            ref[t1] = xs
            c.ev('recurrence_steps')
    for i in range(q):
        x = res[i]
        c.check(type(x) is process, 'systems-type')
        c.equal(x.t, tt, 'systems-timeline')
        want = np.stack([ref[t][i] for t in fl])
        if log_flag:
            want = np.exp(want)
        c.close(x.x, want, 'systems-values', f'equation {i}', rtol=1e-9)


def rec_sources(c, ids, paths, wshape):
    rng = np.random.default_rng(int(c.sub_rng(3).integers(2**31)))
    out = {}
    for k in sorted(ids):
        if k == 'dw':
            out[k] = Rec(sd.wiener_source(paths=paths, vshape=wshape,
                                          rng=rng))
        else:
            out[k] = Rec(sd.poisson_source(paths=paths, vshape=wshape,
                                           rng=rng, lam=1.5))
    return out


@I03.section(300)
def pack_unpack(c):
    q = c.int(1, 4)
    vshape = gen.dims(c)
    addaxis = c.chance(.5)
    paths = c.choice([1, 3])
    eff = addaxis or vshape == ()
    q_, addaxis_ = q, addaxis

    class P(SDEs, integrator):
        q = q_
        addaxis = addaxis_

        def sde(self, t, *xs):
            return [{'dt': 0}]*q
    exec_ns = {}
    exec('def sde(self, t, ' + ', '.join(f'x{i}' for i in range(q))
         + '): return ({"dt": 0, "dw": 1.},)*' + str(q), exec_ns)
    P.sde = exec_ns['sde']
    kw = {}
    if c.chance(.7):
        m = q if eff else q*vshape[-1]
        kw['corr'] = rand_corr(c, m) if m > 1 else np.eye(1)
    p = P(vshape=vshape, paths=paths, **kw)
    w = vshape + (q,) if eff else vshape[:-1] + (q*vshape[-1],)
    c.sig(q=q, vshape=vshape, addaxis=addaxis, corr=bool(kw))
    c.check(tuple(p.sources['dw'].vshape) == w, 'source-vshape',
            f"{p.sources['dw'].vshape} vs {w}")
    if kw:
        c.equal(p.sources['dw'].corr, kw['corr'], 'source-corr')
    xs = [c.rng.normal(size=vshape + (paths,)) for _ in range(q)]
    X = p.pack(xs)
    c.check(X.shape == w + (paths,), 'pack-shape')
    for i, x in enumerate(p.unpack(X)):
        c.equal(x, xs[i], 'pack-unpack')
        c.equal(x, dispatch(X, i, q, vshape, eff), 'unpack')
    # values broadcastable to the shape of components
    ys = [c.choice([1., np.ones(paths), np.ones(vshape + (1,))])*(i + 1)
          for i in range(q)]
    for i, x in enumerate(p.unpack(p.pack(ys))):
        c.equal(x, np.full(vshape + (paths,), i + 1.), 'pack-broadcast')
    # wrong correlation shape
    m = (q if eff else q*vshape[-1]) + 1
    c.raises(ValueError, lambda: P(vshape=vshape, corr=np.eye(m)),
             'bad-corr-accepted')
    c.ev('recurrence_steps')


@I03.section(200)
def malformed(c):
    k = c.choice(['dict', 'few', 'many', 'key', 'notdict', 'q0'])
    vshape = gen.dims(c, 1)
    val = {'dict': {'dt': 0}, 'few': ({'dt': 0},), 'many': [{'dt': 0}]*3,
           'key': ({'dt': 0}, {'dq': 1}), 'notdict': (1., {'dt': 0}),
           'q0': None}[k]
    c.sig(k=k, vshape=vshape)

    class P(SDEs, integrator):
        q = 2

        def sde(self, t, x, y):
            return val
    if k == 'q0':
        P.q = c.choice([0, -1])
        c.raises(ValueError, lambda: P(), 'malformed-system')
        return
    exc = {'dict': TypeError, 'few': ValueError, 'many': ValueError,
           'key': KeyError, 'notdict': TypeError}[k]
    c.raises(exc, lambda: P(vshape=vshape)([0., 1.]), 'malformed-system', k)


# =====================================================================
# I04 preset processes
# =====================================================================
I04 = new(
    'I04', 'all preset processes with random (scalar, array, time '
    'dependent) parameters, shapes, steps and starting index; each path '
    'against the documented equation integrated on recorded increments; '
    'non-trivial: distinct (process, parameter kinds, vshape, i0)',
    required=['recurrence_steps', 'paths_compared', 'truncations_seen',
              'jumps_seen'])

PRESETS = ['wiener', 'lognorm', 'oruh', 'hw1f', 'hw', 'cir', 'heston_xy',
           'heston', 'jumpdiff', 'merton', 'kou']
CLASSES = dict(
    wiener=sd.wiener_process, lognorm=sd.lognorm_process,
    oruh=sd.ornstein_uhlenbeck_process, hw=sd.hull_white_process,
    hw1f=sd.hull_white_1factor_process,
    cir=sd.cox_ingersoll_ross_process, heston_xy=sd.full_heston_process,
    heston=sd.heston_process, jumpdiff=sd.jumpdiff_process,
    merton=sd.merton_jumpdiff_process, kou=sd.kou_jumpdiff_process)

# name: (parameter defaults, positive parameters)
PARAMS = dict(
    wiener=dict(x0=0., mu=0., sigma=1.),
    lognorm=dict(x0=1., mu=0., sigma=1.),
    oruh=dict(x0=0., theta=0., k=1., sigma=1.),
    hw1f=dict(x0=0., theta=0., k=1., sigma=1.),
    hw=dict(x0=0., theta=0., k=1., sigma=1.),
    cir=dict(x0=1., theta=1., k=1., xi=1.),
    heston_xy=dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1.),
    heston=dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1.),
    jumpdiff=dict(x0=1., mu=0., sigma=1.),
    merton=dict(x0=1., mu=0., sigma=1.),
    kou=dict(x0=1., mu=0., sigma=1.))


def preset_case(c, name, paths=None):
    """a random instance of a preset process, with recorded sources, and
    its reference evaluation"""
    vshape = gen.dims(c, 1 if paths else 3)
    paths = paths or c.choice([1, 2, 4])
    F = c.int(1, 3) if name == 'hw' else None
    pv = vshape + (F,) if F else vshape       # shape of parameters
    args, evs, kinds = {}, {}, {}
    for k, d in PARAMS[name].items():
        evs[k] = (lambda t, d=d: d)
        kinds[k] = 'default'
        if c.chance(.2):
            continue
        if k in ('x0', 'y0'):
            sh = c.choice([(), pv + (1,), (paths,), pv + (paths,)])
            v = .3 + c.rng.random(sh)
            if sh == ():
                v = float(v)
            args[k], evs[k], kinds[k] = v, (lambda t, v=v: v), str(len(sh))
            continue
        base = .6 if k in ('sigma', 'k', 'xi', 'theta') else 0.
        kinds[k], args[k], evs[k] = param(c, pv, paths, scale=.2, base=base)
    ws = pv
    eff = True
    if name.startswith('heston'):
        eff = (vshape == ())
        ws = vshape + (2,) if eff else vshape[:-1] + (2*vshape[-1],)
    rng = np.random.default_rng(int(c.sub_rng(11).integers(2**31)))
    src = {}
    kw = dict(paths=paths, vshape=ws, rng=rng)
    a = dict(corr=rand_corr(c, ws[-1])) if ws and c.chance(.6) else {}
    src['dw'] = Rec(sd.wiener_source(**kw, **a))
    if name in ('jumpdiff', 'merton', 'kou'):
        y = c.choice([sd.norm_rv(0., .3), sd.double_exp_rv(.2, .3, .4),
                      sd.norm_rv(lambda t: .1*np.cos(t), .2)])
        src['dj'] = RecDj(sd.cpoisson_source(lam=c.choice([.5, 3.]), y=y,
                                             **kw))
    if F:
        args['factors'] = F
    return vshape, paths, F, args, evs, kinds, src, eff


def preset_reference(name, evs, src, steps_of, vshape, paths, F, eff, t0):
    """{t: state} from documented equations; states are tuples"""
    full = vshape + ((F,) if F else ()) + (paths,)
    b = lambda k, t: np.asarray(evs[k](t), float)
    trunc = 0
    x0 = np.broadcast_to(b('x0', t0), full)
    if name in ('lognorm', 'jumpdiff', 'merton', 'kou'):
        init = (np.log(x0),)
    elif name.startswith('heston'):
        init = (np.log(x0), np.broadcast_to(b('y0', t0), full))
    else:
        init = (x0,)
    ref = {t0: init}
    neg = {True: 0, False: 0}
    for reverse in (True, False):
        s = init
        runs = {k: r.run(reverse) for k, r in src.items()}
        neg[reverse] = np.zeros(full, int)
        for t, dt, t1 in steps_of(reverse):
            dw = runs['dw'][t][0][1]
            x = s[0]
            if name == 'wiener':
                s = (x + b('mu', t)*dt + b('sigma', t)*dw,)
            elif name in ('oruh', 'hw1f', 'hw'):
                s = (x + b('k', t)*(b('theta', t) - x)*dt
                     + b('sigma', t)*dw,)
            elif name == 'cir':
                xp = np.maximum(x, 0)
                trunc += (x < 0).sum()
                s = (x + b('k', t)*(b('theta', t) - xp)*dt
                     + b('xi', t)*np.sqrt(xp)*dw,)
            elif name.startswith('heston'):
                y = s[1]
                yp = np.maximum(y, 0)
                trunc += (y < 0).sum()
                neg[reverse] = neg[reverse] + (y < 0)
                sg = b('sigma', t)
                if eff:
                    w1, w2 = dw[..., 0, :], dw[..., 1, :]
                else:
                    N = vshape[-1]
                    w1, w2 = dw[..., :N, :], dw[..., N:, :]
                s = (x + (b('mu', t) - sg*sg*yp/2)*dt + sg*np.sqrt(yp)*w1,
                     y + b('k', t)*(b('theta', t) - yp)*dt
                     + b('xi', t)*np.sqrt(yp)*w2)
            else:
                sg = b('sigma', t)
                dx = (b('mu', t) - sg*sg/2)*dt + sg*dw
                if 'dj' in runs:
                    dx = dx + runs['dj'][t][0][1]
                s = (x + dx,)
            s = tuple(np.broadcast_to(v, full) for v in s)
            ref[t1] = s
    return ref, trunc, neg


@I02.section(350)
def changed_parameters(c):
    """processes and functions as parameters, which change between
    simulations performed by the same object: their value in effect, at
    the time of each step, is used"""
    name = c.choice(PRESETS)
    vshape, paths, F, args, evs, kinds, src, eff = preset_case(c, name)
    pv = vshape + (F,) if F else vshape
    live = {}
    for k in PARAMS[name]:
        if k in ('x0', 'y0') or c.chance(.3):
            continue
        sh = c.choice([(1,), (paths,), pv + (1,), pv + (paths,)])
        how = c.choice(['process', 'process', 'fun', 'fun_t', 'method',
                        'piecewise'])
        v = .2 + .5*c.rng.random(sh)
        if how in ('process', 'piecewise'):
            v = np.broadcast_to(v, pv + v.shape[-1:])
            x = np.stack([v, v])
            args[k] = process([-3000., 3000.], x=x) if how == 'process' \
                else sd.piecewise([-3000., 3000.], x=x)
        else:
            class Live:
                def value(self, t, k=k):
                    return live[k][1]*(1 + .01*np.sin(t))

                __call__ = value
            o = Live()
            args[k] = o if how == 'fun' else o.value if how == 'method' \
                else (lambda t, k=k: live[k][1]*(1 + .01*np.sin(t)))
        live[k] = [how, v]
        evs[k] = (lambda t, k=k: live[k][1]) \
            if how in ('process', 'piecewise') else \
            (lambda t, k=k: live[k][1]*(1 + .01*np.sin(t)))
    tt = short_timeline(c, hi=4)
    sk, sf, pts, exact = steps_spec(c, tt)
    i0 = start_index(c, tt.size)
    c.sig(name=name, live=sorted((k, v[0]) for k, v in live.items()),
          vshape=vshape, n=tt.size, sk=sk)
    P = CLASSES[name](paths=paths, vshape=vshape, steps=sf(), i0=i0,
                      getinfo=c.chance(.5), **args, **src)
    fl = tt.astype(float)
    j0 = int(np.arange(tt.size)[i0])
    for rep in range(c.choice([2, 2, 3])):
        if sk in ('iter', 'gen') and rep:
            break
        for k, (how, v) in live.items():
            if rep and c.chance(.8):
                v = v*c.rng.uniform(.3, 1.7)
                live[k][1] = v
                if how in ('process', 'piecewise'):
                    if c.chance(.5):
                        args[k][...] = v
                    else:
                        args[k].x[...] = v
        for s in src.values():
            s.calls.clear()
        res = P(tt)
        ref, trunc, neg = preset_reference(
            name, evs, src,
            lambda rev: chain(c, src['dw'], tt, pts, exact, j0, rev, name),
            vshape, paths, F, eff, fl[j0])
        c.ev('recurrence_steps', len(ref) - 1)
        for i, x in enumerate(as_tuple(res)):
            want = np.stack([ref[t][i] for t in fl])
            if name in ('lognorm', 'jumpdiff', 'merton', 'kou') or \
                    name.startswith('heston') and i == 0:
                want = np.exp(want)
            if name == 'hw':
                want = want.sum(axis=-2)
            ok = np.isfinite(want) & (np.abs(want) < 1e30)
            c.close(np.where(ok, x.x, 0), np.where(ok, want, 0),
                    'changed-parameters', f'{name} run {rep} component {i}',
                    rtol=1e-9)



@I04.section(2200)
def presets(c):
    name = c.choice(PRESETS)
    big = c.choice([0]*60 + [1, 2])
    vshape, paths, F, args, evs, kinds, src, eff = preset_case(
        c, name, c.choice([1025, 5001, 20003]) if big == 1 else None)
    tt = short_timeline(c, hi=6)
    n = tt.size
    i0 = start_index(c, n)
    j0 = int(np.arange(n)[i0])
    fl = tt.astype(float)
    sk, sf, pts, exact = steps_spec(c, tt)
    if big == 2 and n > 1:
        m = c.choice([300, 1001, 2003])
        sk, sf, exact = 'int', lambda: m, False
        pts = fl[0] + (fl[-1] - fl[0])*np.arange(m)/(m - 1)
    c.sig(name=name, kinds=kinds, vshape=vshape, i0=int(i0), sk=sk, n=n,
          tk=tt.dtype.kind, big=big)
    dtype = c.choice([None, None, float])
    P = CLASSES[name](paths=paths, vshape=vshape, dtype=dtype, steps=sf(),
                      i0=i0, getinfo=True, **args, **src)
    res = P(tt)
    ref, trunc, neg = preset_reference(
        name, evs, src,
        lambda rev: chain(c, src['dw'], tt, pts, exact, j0, rev, name),
        vshape, paths, F, eff, fl[j0])
    c.ev('recurrence_steps', len(ref) - 1)
    c.ev('truncations_seen', trunc)
    comps = res if name == 'heston_xy' else (res,)
    c.check(len(comps) == (2 if name == 'heston_xy' else 1), 'preset-result')
    for i, x in enumerate(comps):
        want = np.stack([ref[t][i] for t in fl])
        if name in ('lognorm', 'jumpdiff', 'merton', 'kou') or \
                name.startswith('heston') and i == 0:
            want = np.exp(want)
        if name == 'hw':
            want = want.sum(axis=-2)
        c.check(type(x) is process, 'preset-type')
        c.equal(x.t, tt, 'preset-timeline', name)
        c.check(x.shape == (n,) + vshape + (paths,), 'preset-shape',
                f'{name} {x.shape}')
        c.check(x.dtype == float, 'preset-dtype')
        ok = np.isfinite(want) & (np.abs(want) < 1e30)
        c.close(np.where(ok, x.x, 0), np.where(ok, want, 0),
                'preset-values', f'{name} component {i}', rtol=1e-9)
        c.ev('paths_compared', int(np.prod(vshape, dtype=int))*paths)
    # diagnostics of the forward simulation
    fwd = j0 < n - 1
    if name.startswith('heston') and fwd:
        c.equal(P.info['negative_y_count'], neg[False], 'negative-count')
    if 'dj' in src:
        cnt = np.zeros(vshape + (paths,), int)
        for (t, dt, z) in src['dj'].calls:
            c.ev('jumps_seen', (z != 0).sum())


@I04.section(400)
def jump_counts(c):
    """jump count of jump diffusions equals the realized jumps"""
    name = c.choice(['jumpdiff', 'merton', 'kou'])
    vshape, paths = gen.dims(c), c.choice([1, 5])
    tt = np.cumsum(.1 + c.rng.random(c.int(2, 5)))
    log_dn = []

    class Dn(sd.poisson_source):
        def __call__(self, t, dt):
            z = super().__call__(t, dt)
            log_dn.append((float(t), float(dt), z.copy()))
            return z
    lam = c.choice([.5, 4., 'arr', 'fun'])
    if lam == 'arr':
        lam = c.rng.random(vshape + (1,))*3
    elif lam == 'fun':
        lam = lambda t: 1 + t
    info = c.choice([None, {}, dict(mine=1)])
    P = CLASSES[name](paths=paths, vshape=vshape, lam=lam, dn=Dn,
                      steps=c.choice([None, 5]), mu=0., sigma=0.,
                      rng=np.random.default_rng(c.index), info=info,
                      **(dict(y=sd.exp_rv(.5)) if name == 'jumpdiff' else {}))
    x = P(tt)
    c.check(info is None or P.info is info, 'info-dict')
    c.sig(name=name, vshape=vshape, lam=str(type(lam)), n=tt.size)
    tot = sum(z for _, _, z in log_dn)
    c.equal(P.info['jump_count'], tot, 'jump-count')
    c.ev('jumps_seen', tot.sum())
    # with no diffusion, paths without jumps do not move
    still = (tot == 0)
    c.check((x.x[-1][still] == 1.).all(), 'jump-paths')
    c.check((x.x[-1][~still] != 1.).all(), 'jump-paths')
    c.equal(x.x[0], np.ones(vshape + (paths,)), 'jump-paths')
    # realized rate in each interval of the timeline, per path
    rate = P.info['jump_rate']
    for i in range(tt.size - 1):
        z = sum(z.sum() for t, _, z in log_dn if tt[i] <= t < tt[i + 1])
        c.close(rate[i], z/(tt[i + 1] - tt[i])/paths, 'jump-rate',
                rtol=1e-10)
    c.ev('paths_compared', still.size)


@I04.section(400)
def special_cases(c):
    """relations between presets, and closed forms, path by path"""
    k = c.choice(['hw1', 'hw1f', 'heston', 'heston0', 'jump0', 'drift',
                  'ou0', 'cir0', 'lognorm'])
    vshape, paths = gen.dims(c), c.choice([1, 3])
    n = c.int(2, 6)
    tt = np.cumsum(.05 + .3*c.rng.random(n))
    i0 = c.choice([0, 0, -1, 1])
    s = c.index
    kw = dict(vshape=vshape, paths=paths, i0=i0, steps=c.choice([None, 7]))
    G = lambda: np.random.default_rng(s)
    full = vshape + (paths,)
    c.sig(k=k, vshape=vshape, n=n, i0=i0, steps=kw['steps'])
    th, kk, sg = c.rng.random(3) + .1
    c.ev('paths_compared', paths)
    if k == 'hw1':
        a = sd.hull_white_process(factors=1, theta=th, k=kk, sigma=sg,
                                  rng=G(), **kw)(tt)
        b = sd.ornstein_uhlenbeck_process(theta=th, k=kk, sigma=sg,
                                          rng=G(), **kw)(tt)
        c.close(a, b.x, 'hull-white-1', rtol=1e-12)
    elif k == 'hw1f':
        a = sd.hull_white_1factor_process(theta=th, k=kk, sigma=sg,
                                          rng=G(), **kw)(tt)
        b = sd.ornstein_uhlenbeck_process(theta=th, k=kk, sigma=sg,
                                          rng=G(), **kw)(tt)
        c.close(a, b.x, 'hull-white-1', rtol=1e-12)
    elif k == 'heston':
        q = dict(mu=.1, sigma=sg, theta=th, k=kk, xi=.8, y0=.4, **kw)
        a = sd.heston_process(rng=G(), **q)(tt)
        b, _ = sd.full_heston_process(rng=G(), **q)(tt)
        c.close(a, b.x, 'heston-full', rtol=1e-12)
    elif k == 'heston0':
        # no volatility of volatility, at equilibrium: lognormal
        w = vshape + (2,) if vshape == () else \
            vshape[:-1] + (2*vshape[-1],)
        src = sd.true_wiener_source(vshape=w, paths=paths, rng=G(),
                                    t0=tt[i0])
        a, y = sd.full_heston_process(mu=.1, sigma=sg, theta=th, y0=th,
                                      k=kk, xi=0., dw=src, **kw)(tt)
        W = np.stack([src(t) for t in tt])
        W = W[..., 0, :] if vshape == () else W[..., :vshape[-1], :]
        d = (tt - tt[i0]).reshape((-1,) + (1,)*len(full))
        v = sg*np.sqrt(th)
        c.close(a.x, np.exp((.1 - v*v/2)*d + v*W), 'heston-lognormal',
                rtol=1e-9)
        c.close(y.x, np.full(y.shape, th), 'heston-constant-vol', rtol=1e-9)
    elif k == 'jump0':
        src = sd.true_wiener_source(vshape=vshape, paths=paths, rng=G())
        src2 = sd.true_wiener_source(vshape=vshape, paths=paths, rng=G())
        cls = CLASSES[c.choice(['jumpdiff', 'merton', 'kou'])]
        a = cls(mu=.1, sigma=sg, lam=0., dw=src, **kw)(tt)
        b = sd.lognorm_process(mu=.1, sigma=sg, dw=src2, **kw)(tt)
        c.close(a, b.x, 'jumpdiff-no-jumps', rtol=1e-12)
    elif k == 'drift':
        # no noise: exact integration of constant drift
        a = sd.wiener_process(mu=th, sigma=0., x0=2., **kw)(tt)
        d = (tt - tt[i0]).reshape((-1,) + (1,)*len(full))
        c.close(a.x, np.broadcast_to(2 + th*d, a.shape), 'wiener-drift',
                rtol=1e-12)
        b = sd.lognorm_process(mu=th, sigma=0., x0=2., **kw)(tt)
        c.close(b.x, np.broadcast_to(2*np.exp(th*d), b.shape),
                'lognorm-drift', rtol=1e-11)
    elif k == 'ou0':
        a = sd.ornstein_uhlenbeck_process(theta=th, k=kk, sigma=0., x0=th,
                                          **kw)(tt)
        c.close(a.x, np.full(a.shape, th), 'ou-equilibrium', rtol=1e-12)
    elif k == 'cir0':
        a = sd.cox_ingersoll_ross_process(theta=th, k=kk, xi=0., x0=th,
                                          **kw)(tt)
        c.close(a.x, np.full(a.shape, th), 'cir-equilibrium', rtol=1e-12)
    else:
        src = sd.true_wiener_source(vshape=vshape, paths=paths, rng=G(),
                                    t0=tt[i0])
        a = sd.lognorm_process(mu=.1, sigma=sg, x0=3., dw=src, **kw)(tt)
        W = np.stack([src(t) for t in tt])
        d = (tt - tt[i0]).reshape((-1,) + (1,)*len(full))
        c.close(a.x, 3*np.exp((.1 - sg*sg/2)*d + sg*W), 'lognorm-exact',
                rtol=1e-9)


# =====================================================================
# I05 grids of parameters
# =====================================================================
I05 = new(
    'I05', 'preset and user defined processes with array-like parameters '
    'and initial conditions over values and/or paths, against one separate '
    'single-valued integration for each element, driven by the same source '
    'increments; non-trivial: distinct (process, which parameters vary, '
    'shapes)', required=['elements_compared'])


class Slice:
    """component of recorded source increments"""

    def __init__(self, rec, idx, vshape, paths):
        self.d = {(t, dt): z[idx] for t, dt, z in rec.calls}
        self.vshape, self.paths = vshape, paths

    def __call__(self, t, dt):
        return self.d[float(t), float(dt)]


@I05.section(900)
def grid(c):
    name = c.choice(PRESETS + ['integrate'])
    vshape = c.choice([(2,), (3,), (2, 2), (2, 3)])
    paths = c.choice([1, 2, 3])
    tt = np.cumsum(.05 + .4*c.rng.random(c.int(2, 5)))
    i0 = c.choice([0, 0, -1, 1])
    steps = c.choice([None, 4])
    F = 2 if name == 'hw' else None
    pv = vshape + (F,) if F else vshape
    cls = CLASSES.get(name)
    names = PARAMS.get(name) or dict(x0=1., k=1., theta=1., sigma=1.)
    if cls is None:
        @sd.integrate
        def cls(t=0., x=1., k=1., theta=1., sigma=1.):
            return {'dt': k*(theta - x)*np.cos(t), 'dw': sigma*x}
    args, el, kinds = {}, {}, {}
    for k in names:
        kd = c.choice(['scalar', 'value', 'path', 'full', 'fun', 'proc'])
        if k in ('x0', 'y0') and kd in ('fun', 'proc'):
            kd = 'full'
        kinds[k] = kd
        sh = {'scalar': (), 'value': pv + (1,), 'path': (paths,),
              'full': pv + (paths,), 'fun': pv + (1,),
              'proc': pv + (paths,)}[kd]
        v = .2 + .8*c.rng.random(sh)
        w = .1*c.rng.random(sh)
        cut = (lambda a, i: np.broadcast_to(a, pv + (paths,))[i])
        if kd == 'fun':
            args[k] = (lambda t, v=v, w=w: v + w*np.sin(t))
            el[k] = (lambda i, v=v, w=w, cut=cut:
                     (lambda t: cut(v + w*np.sin(t), i)))
        elif kd == 'proc':
            args[k] = process([-1., 5.], x=np.stack((v, v + w)))
            el[k] = (lambda i, v=v, w=w, cut=cut:
                     (lambda t: cut(v + w*(t + 1)/6, i)))
        else:
            args[k] = v
            el[k] = (lambda i, v=v, cut=cut: cut(v, i))
    c.sig(name=name, vshape=vshape, kinds=kinds, paths=paths, i0=i0)
    eff = True
    ws = pv
    if name.startswith('heston'):
        ws = vshape[:-1] + (2*vshape[-1],)
    rng = np.random.default_rng(c.index)
    src = dict(dw=Rec(sd.wiener_source(vshape=ws, paths=paths, rng=rng)))
    if name in ('jumpdiff', 'merton', 'kou'):
        src['dj'] = Rec(sd.cpoisson_source(vshape=ws, paths=paths, rng=rng))
    extra = dict(factors=F) if F else {}
    res = cls(vshape=vshape, paths=paths, i0=i0, steps=steps,
              **args, **src, **extra)(tt)
    res = res if isinstance(res, tuple) else (res,)
    for i in np.ndindex(vshape):
        e = {k: f(i) for k, f in el.items()}
        if name.startswith('heston'):
            N = vshape[-1]
            idx = (i[:-1] + ([i[-1], i[-1] + N],))
            sv = (2,)
        elif F:
            idx, sv = i, (F,)
        else:
            idx, sv = i, ()
        s1 = {k: Slice(r, idx, sv, paths) for k, r in src.items()}
        one = cls(vshape=(), paths=paths, i0=i0, steps=steps,
                  **e, **s1, **extra)(tt)
        one = one if isinstance(one, tuple) else (one,)
        c.check(len(one) == len(res), 'grid-results')
        for a, b in zip(res, one):
            c.close(b.x, a.x[(slice(None),) + i], 'grid-values',
                    f'{name} element {i}', rtol=1e-10)
            c.ev('elements_compared')


@I05.section(300)
def paths_split(c):
    """path-dependent parameters: each path is a separate simulation"""
    name = c.choice([p for p in PRESETS if p not in ('hw',)])
    paths = c.int(2, 4)
    vshape = c.choice([(), (2,)])
    tt = np.array([0., .3, 1.])
    args = {k: .2 + c.rng.random((paths,)) for k in PARAMS[name]
            if c.chance(.6)}
    ws = vshape
    if name.startswith('heston'):
        ws = (2,) if vshape == () else (2*vshape[-1],)
    rng = np.random.default_rng(c.index)
    src = dict(dw=Rec(sd.wiener_source(vshape=ws, paths=paths, rng=rng)))
    if name in ('jumpdiff', 'merton', 'kou'):
        src['dj'] = Rec(sd.cpoisson_source(vshape=ws, paths=paths, rng=rng))
    c.sig(name=name, paths=paths, vshape=vshape, args=sorted(args))
    res = CLASSES[name](vshape=vshape, paths=paths, **args, **src)(tt)
    res = res if isinstance(res, tuple) else (res,)
    for j in range(paths):
        s1 = {k: Slice(r, (Ellipsis, slice(j, j + 1)), ws, 1)
              for k, r in src.items()}
        one = CLASSES[name](vshape=vshape, paths=1,
                            **{k: v[j] for k, v in args.items()}, **s1)(tt)
        one = one if isinstance(one, tuple) else (one,)
        for a, b in zip(res, one):
            c.close(b.x, a.x[..., j:j+1], 'path-values', f'{name} path {j}',
                    rtol=1e-10)
            c.ev('elements_compared')


# =====================================================================
# I06 invalid input
# =====================================================================
I06 = new(
    'I06', 'malformed integration requests of many kinds on preset and '
    'user defined processes; non-trivial: distinct (kind, process)',
    required=['rejections_observed'])


@I06.section(900)
def rejected(c):
    name = c.choice(PRESETS)
    cls = CLASSES[name]
    tt = np.array([0., .5, 1.])
    vshape = c.choice([(), (2,), (3, 2)])
    paths = 3
    kw = dict(vshape=vshape, paths=paths)
    ws = vshape
    if name.startswith('heston'):
        ws = (2,) if vshape == () else vshape[:-1] + (2*vshape[-1],)
    elif name == 'hw':
        ws = vshape + (1,)
    k = c.choice(['unknown', 'typo', 'method', 'positional', 'src_paths',
                  'src_vshape', 'src_protocol', 'corr', 'corr_paths',
                  'timeline', 'i0', 'param_shape', 'x0_shape', 'rng',
                  'missing', 'mro', 'nointegrator', 'conflict', 'nodict',
                  'badkey', 'nosource', 'integrate', 'integrate_q',
                  'integrate_src', 'integrate_empty', 'rho',
                  'late', 'late', 'late_system', 'late_system',
                  'foreign', 'foreign', 'foreign', 'x0_system',
                  'x0_system', 'depth'])
    c.sig(k=k, name=name, vshape=vshape)
    bad_t = c.choice([[0., 0., 1.], [1., 0.], [[0., 1.]], 3.,
                      [0., np.nan]])
    pnames = [p for p in PARAMS[name] if p not in ('x0', 'y0')]

    def mk(**a):
        class P(SDE, integrator):
            def sde(self, t, x, theta, k=1.):
                return {'dt': k*(theta - x)}
        return P(**a)

    class Ok(SDE, integrator):
        ret = {'dt': 1.}

        def sde(self, t, x):
            return self.ret

    class BadKey(Ok):
        ret = {'dt': 1., c.choice(['dn', 'dx', 'w']): 1.}

    class NoDict(Ok):
        ret = c.choice([(1., 2.), 1., [{'dt': 1.}], None])

    # right for some steps, or in one direction, and wrong later
    late, calls = c.int(1, 5), []
    late_ret, late_exc = c.choice([
        ((1., 2.), TypeError), (1., TypeError), ([{'dt': 1.}], TypeError),
        (None, TypeError), ({'dt': 1., 'dn': 1.}, KeyError),
        ({'dx': 1.}, KeyError)])
    one = {'dt': 1.}
    system_ret, system_exc = c.choice([
        ((one,), ValueError), ([one]*3, ValueError), ([], ValueError),
        (one, TypeError), (None, TypeError), ((one, 1.), TypeError),
        ((1., one), TypeError), ([one, {'dn': 1.}], KeyError),
        ([{'x': 1.}, one], KeyError)])
    late_t = np.linspace(0., 1., 8)
    late_kw = dict(i0=c.choice([0, 0, 7, 3]), paths=c.int(1, 2),
                   getinfo=c.chance(.5))

    class Late(SDE, integrator):
        def sde(self, t, x):
            calls.append(t)
            return {'dt': 1.} if len(calls) <= late else late_ret

    class LateSystem(SDEs, integrator):
        q = 2

        def sde(self, t, x, y):
            calls.append(t)
            return [one, one] if len(calls) <= late else system_ret

    class NoSource(Ok):
        sources = {'dt', 'dq'}

    class Conflict(SDE, integrator):
        def init(self, t, out_x, x0=1., k=3.):
            out_x[...] = x0

        def sde(self, t, x, k=2.):
            return {'dt': k}

    class Mro(integrator, SDE):
        def sde(self, t, x):
            return {'dt': 1.}

    class NoInt(SDE):
        def sde(self, t, x):
            return {'dt': 1.}
    good = sd.wiener_source
    val = c.choice([1., None, 0, False, '', [], (), np.ones(paths),
                    lambda t: t])
    # names known to other processes, or sources
    accepted = set(PARAMS[name]) | {'dw', 'corr', 'rho', 'x0'}
    if name.startswith('heston'):
        accepted |= {'y0'}
    if name == 'hw':
        accepted |= {'factors'}
    if name in ('jumpdiff', 'merton', 'kou'):
        accepted |= {'dj', 'dn', 'ptype', 'lam', 'y', 'a', 'b', 'pa'}
    foreign = sorted({'dw', 'dn', 'dj', 'lam', 'ptype', 'corr', 'rho', 'y',
                      'a', 'b', 'pa', 'factors', 'y0', 'xi', 'theta', 'k',
                      'sigma', 'dt', 't', 'x', 'timeline', 'q', 'addaxis',
                      'log', 'xshape', 'wshape', 'rtol', 't0', 'z0',
                      'sources'} - accepted)
    q0 = c.int(2, 3)

    class shallow(paths_generator):
        depth = c.choice([1, 0, -2])

        def begin(self):
            pass

        def next(self):
            self.itervars['xw'][-1][...] = 0.

        def store(self, i, k):
            self.itervars['xx'][i] = self.itervars['xw'][k]

        def end(self):
            pass

        def exit(self, tt, xx):
            return tt, xx

        def __init__(self, vshape=(), paths=1):
            super().__init__(paths=paths, xshape=vshape, wshape=vshape)

    class System(SDEs, integrator):
        q = q0
        addaxis = c.chance(.5)

        def sde(self, t, *x):
            return [one]*q0
    System.sde = {2: lambda self, t, x, y: [one]*2,
                  3: lambda self, t, x, y, z: [one]*3}[q0]
    exc, f = {
        'foreign': (TypeError, lambda: cls(
            **{c.choice(foreign): val}, **kw)),
        'x0_system': (ValueError, lambda: System(
            x0=np.ones(c.choice([5, q0 + 1, q0 - 1] if q0 > 2 else
                                [5, q0 + 1])),
            vshape=c.choice([(), (q0,), (q0 + 1,), (5,)]), paths=c.choice(
                [1, q0 + 1, 5]))(tt)),
        'unknown': (TypeError, lambda: cls(
            **{c.choice(['foo', 'self', 't_', 'out_x', 'dt', 'lam_']): val},
            **kw)),
        'typo': (TypeError, lambda: cls(**{c.choice(pnames) + '_': val},
                                        **kw)),
        'method': (ValueError, lambda: cls(method=c.choice(
            ['milstein', 'Euler', '']), **kw)),
        'positional': (TypeError, lambda: cls(3)),
        'src_paths': (ValueError, lambda: cls(
            dw=c.choice([good, sd.true_wiener_source])(
                paths=c.choice([paths + 1, 1, paths - 1, 2*paths]),
                vshape=ws), **kw)),
        'src_vshape': (ValueError, lambda: cls(
            dw=good(paths=paths, vshape=ws + (5,) if not ws
                    else ws[:-1] + (ws[-1] + 3,)), **kw)),
        'src_protocol': (ValueError, lambda: cls(
            dw=c.choice([lambda t, dt: dt, 1., np.ones(3), 'dw']), **kw)),
        'corr': (ValueError, lambda: cls(
            corr=np.eye((ws[-1] if ws else 1) + 1), **kw)),
        'corr_paths': (ValueError, lambda: cls(
            corr=np.ones((ws[-1] if ws else 2,)*2 + (paths,)), **kw)),
        'rho': (ValueError, lambda: cls(
            rho=np.zeros((ws[-1] if ws else 1) + 1), **kw)),
        'timeline': (ValueError, lambda: cls(**kw)(bad_t)),
        'i0': (IndexError, lambda: cls(
            i0=c.choice([3, -4, 1., slice(0, 2), None]), **kw)(tt)),
        'param_shape': (ValueError, lambda: cls(
            **{c.choice(pnames): np.ones(7)}, **kw)(tt)),
        'x0_shape': (ValueError, lambda: cls(x0=np.ones(7), **kw)(tt)),
        'rng': (TypeError, lambda: cls(rng=c.choice([1, [1], np.int64(3), np.arange(2)]), **kw)),
        'missing': (TypeError, lambda: mk()),
        'mro': (TypeError, lambda: Mro()),
        'nointegrator': (TypeError, lambda: NoInt()),
        'conflict': (TypeError, lambda: Conflict()),
        'nodict': (TypeError, lambda: NoDict()(tt)),
        'badkey': (KeyError, lambda: BadKey()(tt)),
        'nosource': (ValueError, lambda: NoSource()),
        'integrate': (TypeError, lambda: sd.integrate(
            lambda t, x, z: {'dt': z})),
        'integrate_q': (TypeError, lambda: sd.integrate(
            lambda t=0., x=0.: {'dt': 1.}, q=c.choice([1, 2]))),
        'integrate_src': (TypeError, lambda: sd.integrate(
            lambda t=0., x=0.: {'dt': 1.}, sources={'dt', 'dw'})),
        'integrate_empty': (ValueError, lambda: sd.integrate(
            lambda t=0., x=0.: c.choice([[], ()]))),
        'depth': (ValueError, lambda: (
            shallow(**kw)(tt) if c.chance(.5) else
            type('Sh', (cls,), dict(depth=c.choice([1, 0, -1])))(**kw)(tt))),
        'late': (late_exc, lambda: Late(**late_kw)(late_t)),
        'late_system': (system_exc, lambda: LateSystem(
            vshape=c.choice([(), (2,)]), **late_kw)(late_t)),
    }[k]
    c.raises(exc, f, 'malformed-request-accepted', f'{k} {name}')
    # a well formed request is accepted
    x = cls(**kw)(tt)
    x = x[0] if isinstance(x, tuple) else x
    c.check(x.shape == (3,) + vshape + (paths,), 'wellformed')
    c.check(mk(theta=2.)(tt).shape == (3, 1), 'wellformed')


# =====================================================================
# I07 reproducibility and purity
# =====================================================================
I07 = new(
    'I07', 'all preset processes and user equations: equal seeds, '
    'interleaved instances, repeated calls; global generators, arguments '
    'and results are watched for interference; non-trivial: distinct '
    '(process, vshape, generator, steps)',
    required=['pairs_compared', 'generators_watched'])


def random_process(c, name=None):
    name = name or c.choice(PRESETS + ['user', 'users'])
    if name == 'user':
        @sd.integrate
        def cls(t=0., x=1., k=.3, s=.2):
            return {'dt': k*x, 'dw': s, 'dn': .1, 'dj': .1}
    elif name == 'users':
        @sd.integrate(q=2, sources={'dt', 'dw'})
        def cls(t, x, y, k=.3):
            return {'dt': k*y, 'dw': .1*y}, {'dw': .2, 'dt': x}
    else:
        cls = CLASSES[name]
    return name, cls


def as_tuple(x):
    return x if isinstance(x, tuple) else (x,)


@I07.section(900)
def reproducible(c):
    name, cls = random_process(c)
    vshape, paths = gen.dims(c), c.choice([1, 2, 10])
    tt = short_timeline(c, lo=2, hi=5, kind=c.choice(['rand', 'int']))
    i0 = start_index(c, tt.size)
    sk, sf, _, _ = steps_spec(c, tt)
    kind, s = c.choice(['pcg', 'mt', 'rs']), int(c.rng.integers(2**31))
    kw = dict(vshape=vshape, paths=paths, i0=i0)
    if name not in ('user', 'users') and c.chance(.5):
        m = vshape[-1] if vshape else None
        if name.startswith('heston'):
            m = 2*(m or 1)
        elif name == 'hw':
            m = 1
        if m and m > 1:
            kw['corr'] = rand_corr(c, m)
    c.sig(name=name, vshape=vshape, kind=kind, sk=sk, i0=int(i0))
    g0 = global_states()
    a = as_tuple(cls(rng=rng_from(kind, s), steps=sf(), **kw)(tt))
    c.check(global_states() == g0, 'global-generator-touched', name)
    c.ev('generators_watched')
    # another simulation in between, and different seeding of globals
    np.random.seed(c.index)
    cls(paths=2)(tt)
    P = cls(rng=rng_from(kind, s), steps=sf(), **kw)
    Q = cls(rng=rng_from(kind, s + 1), steps=sf(), **kw)
    b = as_tuple(P(tt))
    d = as_tuple(Q(tt))
    for x, y, z in zip(a, b, d):
        c.equal(x.x, y.x, 'not-reproducible', name)
        c.check(not np.array_equal(x.x, z.x), 'seed-ignored', name)
        c.ev('pairs_compared')
    # repeated calls: new randomness, same law, earlier results unaffected
    keep = [y.x.copy() for y in b]
    if sk == 'gen':
        return
    e = as_tuple(P(tt))
    for x, y, z in zip(b, e, keep):
        c.equal(x.x, z, 'result-overwritten', name)
        c.check(not np.array_equal(x.x, y.x), 'repeated-call', name)
        c.check(not np.shares_memory(x.x, y.x), 'result-aliased', name)
    # the sequence of calls is reproducible too
    R = cls(rng=rng_from(kind, s), steps=sf(), **kw)
    R(tt)
    for x, y in zip(as_tuple(R(tt)), e):
        c.equal(x.x, y.x, 'not-reproducible', f'{name} second call')


@I07.section(300)
def default_generator(c):
    name, cls = random_process(c)
    vshape, paths = gen.dims(c), c.choice([1, 2, 10])
    tt = np.array([0., 1., 2.])
    c.sig(name=name, vshape=vshape)
    old = infra.default_rng
    np_state = np.random.get_state()[1].tobytes()
    try:
        out = []
        for i in range(2):
            infra.default_rng = np.random.default_rng(7)
            P = cls(vshape=vshape, paths=paths)
            c.check(P.rng is infra.default_rng, 'default-rng', name)
            out.append(as_tuple(P(tt)))
        R = as_tuple(cls(vshape=vshape, paths=paths,
                         rng=np.random.default_rng(7))(tt))
        for x, y, z in zip(out[0], out[1], R):
            c.equal(x.x, y.x, 'default-rng', name)
            c.equal(x.x, z.x, 'default-rng', name)
            c.ev('pairs_compared')
    finally:
        infra.default_rng = old
    c.check(np.random.get_state()[1].tobytes() == np_state,
            'global-generator-touched')
    c.ev('generators_watched')


@I07.section(400)
def arguments_untouched(c):
    """parameters and timelines are neither modified nor aliased"""
    name = c.choice(PRESETS)
    cls = CLASSES[name]
    vshape, paths = gen.dims(c), c.choice([2, 3])
    pv = vshape + (2,) if name == 'hw' else vshape
    args = {}
    for k in PARAMS[name]:
        args[k] = .2 + c.rng.random(c.choice([(), pv + (1,),
                                              pv + (paths,)]))
        if c.chance(.4):
            args[k] = np.asarray(args[k])
            args[k].flags.writeable = False
    tt = np.cumsum(.1 + c.rng.random(4))
    steps = c.rng.random(3)*2
    if c.chance(.5):
        steps = np.sort(steps)
    if name == 'hw':
        args['factors'] = 2
    keep = {k: np.array(v) for k, v in args.items()}
    keep_t, keep_s = tt.copy(), steps.copy()
    i0 = c.choice([0, -1, 2])
    c.sig(name=name, vshape=vshape, i0=i0)
    P = cls(vshape=vshape, paths=paths, steps=steps, i0=i0,
            rng=np.random.default_rng(1), **args)
    a = as_tuple(P(tt))
    for k in args:
        c.equal(np.asarray(args[k]), keep[k], 'argument-modified',
                f'{name} {k}')
    c.equal(tt, keep_t, 'timeline-modified')
    c.equal(steps, keep_s, 'steps-modified')
    first = [x.x.copy() for x in a]
    for x in a:
        for k, v in args.items():
            if isinstance(v, np.ndarray):
                c.check(not np.shares_memory(x.x, v), 'result-aliased', k)
        x.x[...] = -1.
        c.mutated(x.x)
    # initial conditions are not affected by what is done with results
    R = cls(vshape=vshape, paths=paths, steps=steps, i0=i0,
            rng=np.random.default_rng(1), **args)
    for x, f in zip(as_tuple(R(tt)), first):
        c.equal(x.x, f, 'not-reproducible', name)
    b = as_tuple(P(tt))
    for x, f in zip(b, first):
        c.equal(x.x[i0], f[i0], 'initial-condition-changed', name)
        c.ev('pairs_compared')
    c.ev('generators_watched')


@I07.section(200)
def info_switch(c):
    """diagnostics do not affect results"""
    name, cls = random_process(c)
    vshape, paths = gen.dims(c), 3
    tt = short_timeline(c, lo=2, hi=5)
    kw = dict(vshape=vshape, paths=paths, steps=c.choice([None, 5]),
              i0=start_index(c, tt.size))
    c.sig(name=name, vshape=vshape, n=tt.size)
    d = c.choice([dict(user=1), {}])
    keep = dict(d)
    P = cls(rng=np.random.default_rng(2), getinfo=True, info=d, **kw)
    a = as_tuple(P(tt))
    c.check(P.info is d and 'computed_steps' in d
            and all(d[k] == z for k, z in keep.items()), 'info-dict')
    Q = cls(rng=np.random.default_rng(2), getinfo=False, **kw)
    b = as_tuple(Q(tt))
    c.check(Q.info == {}, 'info-disabled')
    for x, y in zip(a, b):
        c.equal(x.x, y.x, 'info-affects-result', name)
        c.ev('pairs_compared')
    c.ev('generators_watched')


class Fault(BaseException):
    """an interruption"""


class Deterministic:
    """A source whose increments are a function of (t, dt)"""

    def __init__(self, c, paths, vshape, kind='dw'):
        self.paths, self.vshape, self.kind = paths, vshape, kind
        self.K = 1 + 5*c.rng.random(vshape + (paths,))
        self.fuse = None

    def __call__(self, t, dt):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                raise Fault
        z = np.sqrt(abs(dt))*np.sin(self.K*(t + 1) + 7*dt)
        if self.kind == 'dn':
            z = np.rint(2*z).astype(int)
        return z


def wiener_shape(name, vshape, F=None, q=None):
    if name == 'hw':
        return vshape + (F or 1,)
    if name.startswith('heston'):
        return vshape + (2,) if vshape == () else \
            vshape[:-1] + (2*vshape[-1],)
    return vshape


@I07.section(300)
def no_traces(c):
    """a generator called along any sequence of timelines gives, at each
    call, what a fresh one gives"""
    name, cls = random_process(c)
    vshape, paths = gen.dims(c), c.choice([1, 3])
    F = 2
    ws = wiener_shape(name, vshape)
    if name == 'users':
        ws = vshape + (2,) if vshape == () else \
            vshape[:-1] + (2*vshape[-1],)
    if name == 'hw':
        ws = vshape + (F,)
    kw = dict(paths=paths, vshape=vshape)
    if name == 'hw':
        kw['factors'] = F
    kw['dw'] = Deterministic(c, paths, ws)
    if name in ('jumpdiff', 'merton', 'kou', 'user'):
        kw['dj'] = Deterministic(c, paths, vshape)
    if name == 'user':
        kw['dn'] = Deterministic(c, paths, vshape, 'dn')
    for k in PARAMS.get(name, {}):
        if c.chance(.5):
            pv = vshape + (F,) if name == 'hw' else vshape
            v = .3 + .5*c.rng.random(c.choice([(), pv + (1,),
                                               pv + (paths,)]))
            kw[k] = v
            if k not in ('x0', 'y0') and c.chance(.4):
                kw[k] = lambda t, v=v: v*(1 + .2*np.cos(t))
    kw['steps'] = c.choice([None, None, 4, 7, [.1, .5, 1.3]])
    kw['i0'] = c.choice([0, 0, -1, 1])
    if c.chance(.3):
        kw['dtype'] = c.choice([np.float32, float])
    P = cls(**kw)
    hist = []
    for _ in range(c.int(2, 5)):
        k = c.choice(['rand', 'int', 'f32', 'same', 'long', 'two', 'bad',
                      'fault', 'fault'])
        n = c.int(2, 5)
        tt = np.cumsum(.1 + c.rng.random(n)) - c.choice([0., 1.])
        if k == 'int':
            tt = np.cumsum(c.rng.integers(1, 3, size=n))
        elif k == 'f32':
            tt = tt.astype(np.float32)
        elif k == 'same' and hist:
            tt = hist[0]
        elif k == 'long':
            tt = np.linspace(-1., 2., 12)
        elif k == 'two':
            tt = np.array([0., .5])
        elif k == 'bad':
            c.raises((ValueError, IndexError), lambda: P(tt[::-1]),
                     'malformed-timeline-accepted')
            continue
        elif k == 'fault':
            # interrupted by an error, at any step
            kw['dw'].fuse = c.int(0, 6)
            try:
                P(tt)
            except Fault:
                c.ev('faults')
            kw['dw'].fuse = None
        a = as_tuple(P(tt))
        fresh = cls(**kw)
        b = as_tuple(fresh(tt))
        for x, y in zip(a, b):
            c.check(x.dtype == y.dtype and x.t.dtype == y.t.dtype,
                    'trace-dtype', f'{name} {k}')
            c.equal(x.x, y.x, 'trace-of-former-call', f'{name} {k} {hist}')
            c.equal(x.t, tt, 'timeline')
            c.ev('pairs_compared')
        ia, ib = P.info, fresh.info
        c.check(set(ia) == set(ib), 'trace-info', f'{set(ia)} {set(ib)}')
        for h in ib:
            c.equal(ia[h], ib[h], 'trace-info', h)
        # what is done with a result does not affect later calls
        if c.chance(.5):
            for x in a:
                x.x[...] = np.nan
                c.mutated(x.x)
        hist.append(tt)
    c.sig(name=name, vshape=vshape, n=len(hist), steps=str(kw['steps']),
          i0=kw['i0'])
    c.ev('generators_watched')


class Kept:
    """A source returning always the same prerecorded arrays"""

    def __init__(self, c, paths, vshape, dtype, readonly):
        self.paths, self.vshape = paths, vshape
        self.z = (.3*c.rng.normal(size=(3,) + vshape + (paths,))
                  ).astype(dtype)
        if np.dtype(dtype).kind in 'iu':
            self.z = c.rng.integers(0, 3, size=self.z.shape).astype(dtype)
        self.keep = self.z.copy()
        if readonly:
            self.z.flags.writeable = False
        self.n = 0

    def __call__(self, t, dt):
        self.n += 1
        return self.z[self.n % 3]


@I07.section(300)
def inputs_kept(c):
    """arrays handed to the integrator by sources, equations, parameters
    and hooks belong to the user"""
    vshape, paths = gen.dims(c), c.choice([1, 2, 5])
    full = vshape + (paths,)
    name = c.choice(['single', 'single', 'system', 'preset', 'preset'])
    ro = c.chance(.3)
    dtype = c.choice([None, None, np.float32, float])
    work = np.dtype(dtype or float)
    kept = []

    def own(a):
        a = np.array(a)
        kept.append((a, a.copy()))
        if ro:
            a.flags.writeable = False
        return a

    def arr(dt=work):
        return own((.5*c.rng.random(c.choice([full, full, vshape + (1,), ()]))
                    + .2).astype(dt))
    i0 = c.choice([0, 0, -1, 1])
    tt = np.cumsum(.1 + c.rng.random(c.int(2, 5)))
    kw = dict(paths=paths, vshape=vshape, dtype=dtype, i0=i0,
              steps=c.choice([None, 4]))
    srcs = {}
    if name == 'preset':
        pname = c.choice([p for p in PRESETS if p != 'hw'])
        cls = CLASSES[pname]
        srcs['dw'] = Kept(c, paths, wiener_shape(pname, vshape), work, ro)
        if pname in ('jumpdiff', 'merton', 'kou'):
            srcs['dj'] = Kept(c, paths, vshape, work, ro)
        pars = {}
        for k in PARAMS[pname]:
            if c.chance(.8):
                a = arr()
                pars[k] = a if k in ('x0', 'y0') or c.chance(.6) \
                    else (lambda t, a=a: a)
    else:
        pname = name
        q = c.int(2, 3) if name == 'system' else 0
        A, B, N = arr(), arr(), arr()
        Z = own(np.zeros(full, work))
        pars = {}
        for k in ('m', 's'):
            a = arr()
            pars[k] = a if c.chance(.5) else (lambda t, a=a: a)
        style = c.choice(['params', 'closure', 'x', 'cached'])
        cache = {'dt': A, 'dw': B, 'dn': N}

        def terms(x, m, s):
            if style == 'cached':
                return cache
            if style == 'closure':
                return {'dt': A, 'dw': B, 'dn': N}
            if style == 'x':
                return {'dt': x, 'dw': s, 'dn': Z}
            return {'dt': m, 'dw': s, 'dn': 1.}
        if q:
            ws = vshape + (q,) if vshape == () else \
                vshape[:-1] + (q*vshape[-1],)
            names = ', '.join(f'x{i}' for i in range(q))
            ns = dict(terms=terms)
            exec(f'def f(t, {names}, m=0., s=1.):\n'
                 f'    return [terms(x, m, s) for x in ({names},)]', ns)
            cls = sd.integrate(ns['f'], q=q, sources={'dt', 'dw', 'dn'})
            pars['x0'] = own(.5 + c.rng.random((q,) + full))
        else:
            ws = vshape

            def f(t, x, m=0., s=1.):
                return terms(x, m, s)
            cls = sd.integrate(f, q=0, sources={'dt', 'dw', 'dn'})
            pars['x0'] = arr()
        srcs['dw'] = Kept(c, paths, ws, work, ro)
        srcs['dn'] = Kept(c, paths, ws, c.choice([int, work]), ro)
    c.sig(name=pname, vshape=vshape, dtype=dtype, readonly=ro, i0=i0,
          style=style if name in ('single', 'system') else '')
    P = cls(**kw, **srcs, **pars)
    first = None
    for _ in range(2):
        for z in srcs.values():
            z.n = 0
        r = as_tuple(P(tt))
        for z in srcs.values():
            c.equal(z.z, z.keep, 'source-data-modified', pname)
        for a, b in kept:
            c.equal(a, b, 'argument-modified', pname)
            for x in r:
                c.check(not np.shares_memory(a, x.x), 'result-aliased',
                        pname)
        if first is not None:
            for x, y in zip(r, first):
                c.equal(x.x, y, 'trace-of-former-call', pname)
                c.ev('pairs_compared')
        first = [x.x.copy() for x in r]
        for x in r:
            x.x[...] = -7.
            c.mutated(x.x)
    if name in ('single', 'system') and style == 'cached':
        c.check(set(cache) == {'dt', 'dw', 'dn'} and cache['dt'] is A
                and cache['dw'] is B and cache['dn'] is N,
                'terms-modified')
    c.ev('generators_watched')


def class_history(c):
    """any history of instances of a class leaves it as it was"""
    k = c.choice(['system', 'system', 'logsystem', 'single', 'integrate',
                  'integrate2', 'preset', 'preset'])
    q = c.int(1, 3)
    ids = {'dt', 'dw'}

    def eqs(t, *xs, s=.2):
        return [{'dt': .1*xs[i - 1], 'dw': s} for i in range(len(xs))]
    names = ', '.join(f'x{i}' for i in range(q))
    ns = dict(eqs=eqs)
    exec(f'def f(t, {names}, s=.2):\n    return eqs(t, {names}, s=s)\n'
         f'def g(self, t, {names}, s=.2):\n'
         f'    return eqs(t, {names}, s=s)', ns)
    addax = c.chance(.3)
    pname = c.choice(PRESETS)

    def make():
        if k in ('system', 'logsystem'):
            return type('S', (SDEs, integrator), dict(
                q=q, sources=set(ids), log=(k == 'logsystem'),
                addaxis=addax, sde=ns['g']))
        if k == 'single':
            return type('S', (SDE, integrator), dict(
                sources=set(ids),
                sde=lambda self, t, x, s=.2: {'dt': .1*x, 'dw': s}))
        if k == 'integrate':
            return sd.integrate(ns['f'], q=q, sources=set(ids),
                                addaxis=addax)
        if k == 'integrate2':
            return sd.integrate(lambda t=0., x=0., s=.2:
                                {'dt': .1*x, 'dw': s})
        return type('S', (CLASSES[pname],), {})
    used = make()
    known = sorted(n for n in dir(used) if not n.startswith('__'))
    hist = []
    for step in range(c.int(2, 5)):
        vshape = c.choice([(), (), (2,), (3,), (1,), (2, 2), (3, 1)])
        paths = c.choice([1, 2])
        kw = dict(vshape=vshape, paths=paths, i0=c.choice([0, -1]),
                  steps=c.choice([None, 3]),
                  dtype=c.choice([None, float, np.float32]))
        if c.chance(.4):
            kw['x0'] = 1.5
        if k != 'preset' and c.chance(.4):
            kw['s'] = .7
        if k == 'preset' and pname == 'hw' and c.chance(.5):
            kw['factors'] = 2
        if c.chance(.15):
            # a failed attempt is part of the history
            c.raises((TypeError, ValueError, KeyError),
                     lambda: used(unknown_parameter=1., **kw),
                     'unknown-parameter-accepted')
        tt = np.cumsum(.1 + c.rng.random(c.int(1, 4)))
        seed = c.index*10 + step
        res = []
        for cls in (used, make()):
            P = cls(rng=np.random.default_rng(seed), **kw)
            res.append(as_tuple(P(tt)))
        c.check(len(res[0]) == len(res[1]), 'class-history', f'{k} {hist}')
        for x, y in zip(*res):
            c.equal(x.x, y.x, 'class-history', f'{k} {pname} {hist} {kw}')
            c.check(x.dtype == y.dtype, 'class-history-dtype')
            c.check(x.vshape == vshape, 'class-history-shape',
                    f'{x.vshape} {vshape} {k} {hist}')
            c.ev('pairs_compared')
            c.ev('recurrence_steps')
        hist.append(vshape)
    fresh = make()
    for n in ('q', 'log', 'addaxis', 'sources'):
        c.check(getattr(used, n) == getattr(fresh, n), 'class-attributes', n)
    c.sig(k=k, q=q, hist=hist, pname=pname if k == 'preset' else '')
    c.ev('generators_watched')


I07.section(200)(class_history)
I03.section(150)(class_history)


# =====================================================================
# I08 realized paths as sources
# =====================================================================
I08 = new(
    'I08', 'sources with memory and processes used to drive integration '
    'with different steps, timelines and starting points; the same noise '
    'must drive them all; non-trivial: distinct (case, vshape, steps)',
    required=['paths_compared', 'refinements'])


@I08.section(600)
def shared_noise(c):
    """constant coefficients: results depend on realized noise only"""
    vshape, paths = gen.dims(c), c.choice([1, 4])
    base = np.cumsum(.1 + c.rng.random(c.int(2, 6)))
    t0 = float(base[0])
    kw = {}
    if vshape and c.chance(.5):
        kw['corr'] = rand_corr(c, vshape[-1])
    dw = sd.true_wiener_source(vshape=vshape, paths=paths, t0=t0,
                               rng=np.random.default_rng(c.index), **kw)
    full = vshape + (paths,)
    mu = .3*c.rng.normal(size=vshape + (1,))
    sg = .2 + c.rng.random(vshape + (1,))
    x0 = 1 + c.rng.random(full)
    cls = c.choice([sd.wiener_process, sd.lognorm_process])
    runs = []
    for _ in range(3):
        k = c.int(1, base.size)
        tt = np.sort(c.rng.choice(base, size=k, replace=False))
        extra = base[0] + np.ptp(base)*c.rng.random(c.int(0, 3))
        tt = np.unique(np.concatenate(([base[0]], tt, extra)))
        steps = c.choice([None, 3, 10, [base.mean()]])
        runs.append((tt, steps))
    c.sig(vshape=vshape, cls=cls.__name__, corr=bool(kw),
          steps=[str(s) for _, s in runs])
    for tt, steps in runs:
        x = cls(vshape=vshape, paths=paths, x0=x0, mu=mu, sigma=sg, dw=dw,
                steps=steps)(tt)
        W = np.stack([dw(t) for t in tt])
        d = (tt - t0).reshape((-1,) + (1,)*len(full))
        want = x0 + mu*d + sg*W if cls is sd.wiener_process else \
            x0*np.exp((mu - sg*sg/2)*d + sg*W)
        c.close(x.x, want, 'shared-noise', cls.__name__, rtol=1e-8)
        c.ev('paths_compared', W[0].size)
    # started at another point, backwards and forwards
    i0 = c.int(0, base.size - 1)
    x = cls(vshape=vshape, paths=paths, x0=x0, mu=mu, sigma=sg, dw=dw,
            i0=i0, steps=c.choice([None, 5]))(base)
    W = np.stack([dw(t) for t in base]) - dw(base[i0])
    d = (base - base[i0]).reshape((-1,) + (1,)*len(full))
    want = x0 + mu*d + sg*W if cls is sd.wiener_process else \
        x0*np.exp((mu - sg*sg/2)*d + sg*W)
    c.close(x.x, want, 'shared-noise-backwards', cls.__name__, rtol=1e-8)


@I08.section(400)
def process_source(c):
    """a process as a source: its increments drive the equation"""
    vshape, paths = gen.dims(c), c.choice([1, 3])
    n = c.int(3, 8)
    t = np.cumsum(.1 + c.rng.random(n))
    bc = c.choice(['same', 'one'])
    pv = vshape if bc == 'same' else (1,)*len(vshape)
    p = process(t, x=c.rng.normal(size=(n,) + pv + (paths,)))
    k = c.choice(['wiener', 'dn', 'dj', 'lognorm'])
    x0 = c.rng.random(vshape + (paths,)) + 1
    tt = np.unique(np.concatenate((t[[0, -1]], c.rng.choice(t, size=2))))
    if c.chance(.4):
        tt = np.unique(np.append(tt, c.rng.uniform(t[0], t[-1], size=2)))
    kw = dict(vshape=vshape, paths=paths, x0=x0, steps=c.choice(
        [None, 5, t.tolist()]))
    c.sig(k=k, vshape=vshape, bc=bc, n=n)
    P = np.stack([p(s) for s in tt])
    inc = np.broadcast_to(P - P[0], (tt.size,) + vshape + (paths,))
    if k in ('wiener', 'lognorm'):
        cls = sd.wiener_process if k == 'wiener' else sd.lognorm_process
        x = cls(mu=0., sigma=.5, dw=p, **kw)(tt)
        want = x0 + .5*inc
        if k == 'lognorm':
            d = (tt - tt[0]).reshape((-1,) + (1,)*(len(vshape) + 1))
            want = x0*np.exp(-.125*d + .5*inc)
    elif k == 'dn':
        cls = sd.integrate(lambda t=0., x=0.: {'dn': 2.})
        x = cls(dn=p, **kw)(tt)
        want = x0 + 2*inc
    else:
        x = sd.jumpdiff_process(mu=0., sigma=0., dj=p, **kw)(tt)
        want = x0*np.exp(inc)
    c.close(x.x, want, 'process-as-source', k, rtol=1e-9)
    c.ev('paths_compared', x0.size)


@I08.section(120)
def refinement(c):
    """with the same noise, refining steps converges to the solution"""
    k = c.choice(['gbm', 'ou', 'ode'])
    paths = 100
    T = 1.
    dw = sd.true_wiener_source(paths=paths,
                               rng=np.random.default_rng(c.index))
    sg, mu = .3 + .3*c.rng.random(), .5*c.rng.normal()
    kk, th = .5 + c.rng.random(), c.rng.normal()
    c.sig(k=k, i=c.index)
    errs = []
    N = 512
    grid = np.linspace(0, T, N + 1)
    W = np.concatenate([dw(grid)])
    for n in (8, 32, 128):
        kw = dict(paths=paths, dw=dw, steps=n + 1)
        if k == 'gbm':
            cls = sd.integrate(lambda t=0., x=0., mu=0., sigma=1.:
                               {'dt': mu*x, 'dw': sigma*x})
            x = cls(mu=mu, sigma=sg, x0=1., **kw)([0., T]).x[-1]
            want = np.exp((mu - sg*sg/2)*T + sg*W[-1])
        elif k == 'ou':
            x = sd.ornstein_uhlenbeck_process(
                theta=th, k=kk, sigma=sg, x0=1., **kw)([0., T]).x[-1]
            # exact solution, stochastic integral by parts
            I = W[-1] - kk*np.trapezoid(
                np.exp(-kk*(T - grid))[:, None]*W, grid, axis=0) \
                if hasattr(np, 'trapezoid') else \
                W[-1] - kk*np.trapz(np.exp(-kk*(T - grid))[:, None]*W, grid,
                                    axis=0)
            want = th + (1 - th)*np.exp(-kk*T) + sg*I
        else:
            cls = sd.integrate(lambda t=0., x=0.: {'dt': x*np.cos(t),
                                                   'dw': 0.})
            x = cls(x0=1., **kw)([0., T]).x[-1]
            want = np.full(paths, np.exp(np.sin(T)))
        errs.append(float(np.sqrt(np.mean((x - want)**2))))
    rate = errs[0]/max(errs[2], 1e-15)
    # strong order .5: 4, order 1: 16
    c.check(rate > 2.2 or errs[2] < 2e-3, 'refinement', f'{k} {errs}')
    c.check(errs[2] < .12, 'refinement-error', f'{k} {errs}')
    c.ev('refinements')


# =====================================================================
# I09 law of preset processes
# =====================================================================
I09 = new(
    'I09', 'preset processes with random parameters, simulated with their '
    'own sources; moments and characteristic functions against exact '
    'moments of the scheme and the analytical results of the package; '
    'non-trivial: distinct (process, parameters)',
    required=['statistical_samples', 'chf_points'])


def chf_test(c, x, u, want, mech, msg, slack=0.):
    """E exp(iux) vs want; |exp| <= 1"""
    x = np.asarray(x, float).ravel()
    z = np.exp(1j*u*x)
    n = x.size
    tol = c.Z/np.sqrt(n)*max(np.sqrt(max(1 - abs(want)**2, 1e-4)), .05) \
        + slack
    c.ev('chf_points')
    c.ev('statistical_samples', n)
    c.check(abs(z.mean() - want) < tol, mech,
            f'{msg} u={u} got {z.mean():.5g} expected {want:.5g} tol {tol:.3g}')


@I09.section(260)
def law(c):
    name = c.choice(['wiener', 'lognorm', 'oruh', 'hw', 'cir', 'heston',
                     'heston', 'merton', 'kou', 'jumpdiff'])
    r = c.rng
    n = 20000
    T = float(r.random()*1.5 + .3)
    m = c.choice([1, 5, 20])
    s = dict(rng=rng_from(c.choice(['pcg', 'mt']), int(r.integers(2**31))),
             paths=n)
    anti = c.chance(.2) and name in ('wiener', 'lognorm', 'oruh')
    # one variable, or more, independent of each other
    vs = c.choice([(), (), (1,), (2, 1), (2, 1), (1, 2), (2,)])
    nv = int(np.prod(vs, dtype=int))
    s.update(vshape=vs, paths=n//nv)
    c.sig(name=name, m=m, anti=anti, i=c.index, vs=vs)
    start, i0 = c.choice([(0., 0), (1., 0), (-2., 0)])
    tt = [start, start + T]
    u = float(r.normal()*1.5)
    mu, sg = .3*r.normal(), .2 + .6*r.random()
    if anti:
        s['dw'] = sd.odd_wiener_source
    half = (lambda x: x[..., :x.shape[-1]//2]) if anti else (lambda x: x)

    def final(P, f=lambda x: x):
        x = half(P(tt).x[-1])
        c.check(x.shape[:-1] == vs, 'law-shape')
        if nv == 2:
            a, b = f(x.reshape(2, -1))
            stats.uncorrelated(c, a, b, 'law-independence', f'{name} {vs}')
        return x.ravel()
    if name in ('wiener', 'lognorm'):
        x0 = .5 + r.random()
        par = dict(x0=x0, mu=mu, sigma=sg)
        x = final(CLASSES[name](steps=m, **par, **s),
                  np.log if name == 'lognorm' else lambda x: x)
        ar = par
        if name == 'lognorm':
            mean, var = sd.lognorm_mean(T, **ar), sd.lognorm_var(T, **ar)
            c.zmean(x, float(mean), float(np.sqrt(var)), 'law-mean', name)
            x = np.log(x)
            m1, v1 = np.log(x0) + (mu - sg*sg/2)*T, sg*sg*T
            chf = sd.lognorm_log_chf(T, u, **ar)
        else:
            m1, v1 = float(sd.wiener_mean(T, **ar)), float(
                sd.wiener_var(T, **ar))
            chf = sd.wiener_chf(T, u, **ar)
        stats.moments(c, x, m1, v1, np.sqrt(2)*v1, 'law', name)
        p = scipy.stats.kstest((x - m1)/np.sqrt(v1), 'norm').pvalue
        c.check(p > 1e-11, 'law-distribution', f'{name} p={p}')
        chf_test(c, x, u, complex(chf), 'law-chf', name)
    elif name in ('oruh', 'hw'):
        F = 1 if name == 'oruh' else c.int(1, 3)
        k = .3 + r.random(F)
        th, sgs = r.normal(size=F), .2 + r.random(F)
        x0 = r.normal(size=F)
        R = rand_corr(c, F) if F > 1 else np.eye(1)
        steps = 60
        if name == 'oruh':
            P = sd.ornstein_uhlenbeck_process(
                x0=x0[0], theta=th[0], k=k[0], sigma=sgs[0], steps=steps, **s)
        else:
            cc = dict(corr=R) if F > 1 else {}
            P = sd.hull_white_process(
                factors=F, x0=x0[:, None], theta=th[:, None], k=k[:, None],
                sigma=sgs[:, None], steps=steps, **cc, **s)
        x = final(P)
        # exact moments of the scheme
        dt = T/(steps - 1)
        mm, C = x0.copy(), np.zeros((F, F))
        for _ in range(steps - 1):
            mm = mm + k*(th - mm)*dt
            C = C*np.outer(1 - k*dt, 1 - k*dt) + np.outer(sgs, sgs)*R*dt
        m1, v1 = mm.sum(), C.sum()
        stats.moments(c, x, m1, v1, np.sqrt(2)*v1, 'law', name)
        p = scipy.stats.kstest((x - m1)/np.sqrt(v1), 'norm').pvalue
        c.check(p > 1e-11, 'law-distribution', f'{name} p={p}')
        # close to the exact solution
        if name == 'oruh':
            am = sd.oruh_mean(T, x0=x0[0], theta=th[0], k=k[0], sigma=sgs[0])
            av = sd.oruh_var(T, x0=x0[0], theta=th[0], k=k[0], sigma=sgs[0])
            c.check(abs(am - m1) < .05*(1 + abs(m1)), 'law-analytical-mean')
            c.check(abs(av - v1) < .08*v1 + 1e-3, 'law-analytical-var',
                    f'{av} {v1}')
    elif name == 'cir':
        th, k, x0 = .5 + r.random(), .5 + r.random(), .5 + r.random()
        xi = .3*np.sqrt(2*k*th)
        par = dict(x0=x0, theta=th, k=k, xi=xi)
        steps = 60
        x = final(sd.cox_ingersoll_ross_process(steps=steps, **par, **s))
        am, av = float(sd.cir_mean(T, **par)), float(sd.cir_var(T, **par))
        dt = T/(steps - 1)
        mm, v = x0, 0.
        for _ in range(steps - 1):
            v = v*(1 - k*dt)**2 + xi*xi*mm*dt
            mm = mm + k*(th - mm)*dt
        c.zmean(x, mm, np.sqrt(v), 'law-mean', name, slack=1e-3)
        c.zmean((x - mm)**2, v, np.sqrt(6)*v, 'law-var', name,
                slack=.01*v)
        c.check(abs(am - mm) < .05 and abs(av - v) < .08*v,
                'law-analytical', f'{am} {mm} {av} {v}')
    elif name == 'heston':
        th, k, y0 = .3 + .5*r.random(), .5 + r.random(), .3 + .5*r.random()
        xi = .3*np.sqrt(2*k*th)
        rho = float(r.random()*1.8 - .9)
        par = dict(x0=1.2, mu=mu, sigma=sg, y0=y0, theta=th, k=k, xi=xi,
                   rho=rho)
        more = {}
        if c.chance(.3):
            # (given as a value for each component)
            more['rho'] = [rho]*(vs[-1] if vs else 1)
        elif vs[-1:] == (2,):
            more['rho'] = [rho, rho]
        if c.chance(.7):
            P = sd.full_heston_process(steps=80, **{**par, **more}, **s)
            X, Y = (z.x[-1] for z in P(tt))
            c.check(X.shape[:-1] == Y.shape[:-1] == vs, 'law-shape')
            x, y = X.ravel(), Y.ravel()
            # covariance of log(x) and y along the scheme
            dt = T/79
            my, vy, cv = y0, 0., 0.
            for _ in range(79):
                cv = (1 - k*dt)*(cv - sg*sg/2*vy*dt) + sg*xi*rho*my*dt
                vy = vy*(1 - k*dt)**2 + xi*xi*my*dt
                my = my + k*(th - my)*dt
            lx = np.log(x)
            vx = float(sd.heston_log_var(T, **par))
            sp = np.sqrt(vx*vy)
            c.zmean((lx - lx.mean())*(y - my), cv, 1.4*np.sqrt(1 + rho*rho)*sp,
                    'law-covariance', name, slack=.02*sp)
            c.zmean(y, my, np.sqrt(vy), 'law-mean', 'heston y', slack=1e-3)
        else:
            x = final(sd.heston_process(steps=80, **{**par, **more}, **s),
                      np.log)
        m1, v1 = float(sd.heston_log_mean(T, **par)), float(
            sd.heston_log_var(T, **par))
        lx = np.log(x)
        c.zmean(lx, m1, np.sqrt(v1), 'law-mean', name, slack=.01)
        c.zmean((lx - m1)**2, v1, 2.5*v1, 'law-var', name, slack=.03*v1)
        chf_test(c, lx, u, complex(sd.heston_log_chf(T, u, **par)),
                 'law-chf', name, slack=.015)
        # the discounted process is a martingale
        z = x*np.exp(-mu*T)/1.2
        c.check(abs(z.mean() - 1) < 9*z.std()/np.sqrt(n) + .01,
                'law-martingale', f'{z.mean()}')
    else:
        lam = .2 + 2*r.random()
        if name == 'merton':
            a, b = .2*r.normal(), .1 + .2*r.random()
            jp = dict(a=a, b=b)
            y = sd.norm_rv(a, b)
            m1, v1, m4 = a, b*b, None
            f_chf, f_mean = sd.mjd_log_chf, sd.mjd_mean
        else:
            a, b, pa = .1 + .2*r.random(), .1 + .2*r.random(), r.random()
            jp = dict(a=a, b=b, pa=pa)
            y = sd.double_exp_rv(a, b, pa)
            m1 = pa*a - (1 - pa)*b
            v1 = 2*pa*a*a + 2*(1 - pa)*b*b - m1*m1
            f_chf, f_mean = sd.kou_log_chf, sd.kou_mean
        par = dict(x0=1.5, mu=mu, sigma=sg, lam=lam)
        ap = dict(par, **jp)
        if name == 'jumpdiff':
            P = sd.jumpdiff_process(y=y, steps=m, **par, **s)
        else:
            P = CLASSES[name](steps=m, **ap, **s)
        x = final(P, np.log)
        lx = np.log(x)
        chf_test(c, lx, u, complex(f_chf(T, u, **ap)), 'law-chf', name)
        nu = lam*(float(y.exp_mean()) - 1)
        am = float(f_mean(T, **ap))
        c.close(am, 1.5*np.exp((mu + nu)*T), 'law-analytical-mean', name,
                rtol=1e-9)
        c.check(abs(x.mean() - am) < 9*x.std()/np.sqrt(n) + .002*am,
                'law-mean', f'{name} {x.mean()} vs {am}')
        lm = np.log(1.5) + (mu - sg*sg/2)*T + lam*T*m1
        lv = sg*sg*T + lam*T*(v1 + m1*m1)
        c.zmean(lx, lm, np.sqrt(lv), 'law-log-mean', name)
        c.check(abs(lx.var() - lv) < .15*lv, 'law-log-var')


@I09.section(120)
def time_dependent(c):
    """time dependent parameters, vs exact moments of the scheme"""
    n = 20000
    r = c.rng
    T, m = 1., c.choice([5, 20])
    grid = np.linspace(0, T, m)
    a, b = r.normal(size=2)*.5
    mu = lambda t: a + b*t
    sg = lambda t: .3 + .4*t
    name = c.choice(['wiener', 'lognorm', 'oruh', 'jumpdiff'])
    c.sig(name=name, i=c.index)
    s = dict(paths=n, rng=np.random.default_rng(c.index), steps=m)
    dt = np.diff(grid)
    t0 = grid[:-1]
    if name == 'wiener':
        x = sd.wiener_process(mu=mu, sigma=sg, **s)([0., T]).x[-1]
        m1, v1 = (mu(t0)*dt).sum(), (sg(t0)**2*dt).sum()
    elif name == 'lognorm':
        x = np.log(sd.lognorm_process(mu=mu, sigma=sg, **s)([0., T]).x[-1])
        m1 = ((mu(t0) - sg(t0)**2/2)*dt).sum()
        v1 = (sg(t0)**2*dt).sum()
    elif name == 'oruh':
        x = sd.ornstein_uhlenbeck_process(
            theta=mu, k=lambda t: 1 + t, sigma=sg, x0=1., **s)([0., T]).x[-1]
        m1, v1 = 1., 0.
        for t, d in zip(t0, dt):
            v1 = v1*(1 - (1 + t)*d)**2 + sg(t)**2*d
            m1 = m1 + (1 + t)*(mu(t) - m1)*d
    else:
        lam = lambda t: 1 + 2*t
        x = np.log(sd.jumpdiff_process(
            mu=mu, sigma=sg, lam=lam, y=sd.norm_rv(lambda t: .2*t, .1),
            **s)([0., T]).x[-1])
        mid = t0 + dt/2
        m1 = ((mu(t0) - sg(t0)**2/2)*dt + lam(mid)*dt*.2*mid).sum()
        v1 = (sg(t0)**2*dt + lam(mid)*dt*(.01 + (.2*mid)**2)).sum()
        c.zmean(x, m1, np.sqrt(v1), 'law-time-mean', name)
        c.check(abs(x.var() - v1) < .1*v1, 'law-time-var', f'{x.var()} {v1}')
        c.ev('chf_points')
        return
    stats.moments(c, x, m1, v1, np.sqrt(2)*v1, 'law-time', name)
    chf_test(c, x, 1., np.exp(1j*m1 - v1/2), 'law-time-chf', name)


# =====================================================================
# I10 the integrate decorator
# =====================================================================
I10 = new(
    'I10', 'equations stated as functions (with and without test '
    'evaluation), as classes and via subclassing: same seeds must give the '
    'same results; non-trivial: distinct (equation, form, arguments)',
    required=['pairs_compared', 'rejections_observed'])


@I10.section(500)
def forms(c):
    q = c.choice([0, 0, 1, 2, 3])
    terms = sorted({k for k in ('dt', 'dw', 'dn', 'dj') if c.chance(.6)}
                   | {c.choice(['dw', 'dt'])})
    log_flag, addaxis = c.chance(.3), c.chance(.4)
    vshape, paths = gen.dims(c), c.choice([1, 3])
    tt = short_timeline(c, hi=4, kind=c.choice(['rand', 'int']))
    nv = max(q, 1)
    xs = [f'x{i}' for i in range(nv)]

    mine = [terms]*nv
    if nv > 1 and c.chance(.5):
        # each equation has its own terms
        mine = [[k for k in terms if c.chance(.4)] for _ in range(nv)]
        for k in terms:
            if not any(k in m for m in mine):
                mine[c.int(0, nv - 1)].append(k)

    def one(i, x, t, a):
        f = {'dt': a*x, 'dw': .3 + .1*i, 'dn': .1*x, 'dj': .2}
        return {k: f[k] for k in mine[i]}

    evals = []

    def body(t, x, a):
        evals.append(t)
        out = [one(i, x[i] if i == 0 else x[0] - x[i], t, a)
               for i in range(nv)]
        return out[0] if q == 0 else tuple(out)
    ns = dict(body=body)
    test_eval = c.chance(.6)
    if test_eval:
        sg = 't=0., ' + ', '.join(x + '=1.' for x in xs) + ', a=.2'
    else:
        sg = 't, ' + ', '.join(xs) + ', a=.2'
    exec(f'def f({sg}):\n    "my doc"\n'
         f'    return body(t, [{", ".join(xs)}], a)\n'
         f'def g(self, t, {", ".join(xs)}, a=.2):\n'
         f'    return body(t, [{", ".join(xs)}], a)', ns)
    f, g = ns['f'], ns['g']
    kw = {}
    if log_flag or c.chance(.5):
        kw['log'] = log_flag
    if q and (addaxis or c.chance(.5)):
        kw['addaxis'] = addaxis
    if test_eval:
        if c.chance(.3):
            kw['q'] = q
        if c.chance(.3):
            kw['sources'] = set(terms)
    elif q <= 1 and c.chance(.5):
        pass     # test evaluation with two positional arguments
    else:
        kw.update(q=q, sources=c.choice([set, list, tuple])(terms))
    A = sd.integrate(f, **kw) if c.chance(.5) else sd.integrate(**kw)(f)
    if 'q' in kw and 'sources' in kw:
        c.check(not evals, 'integrate-test-evaluation', f'{evals}')
        c.ev('evaluations_prevented')
    base = SDE if q == 0 else SDEs
    B = type('B', (base, integrator),
             dict(sde=g, sources=set(terms), log=log_flag,
                  addaxis=addaxis if 'addaxis' in kw else False, q=q or 1))
    c.check(issubclass(A, base) and issubclass(A, integrator)
            and (q > 0 or not issubclass(A, SDEs)), 'integrate-class')
    run = dict(vshape=vshape, paths=paths, i0=start_index(c, tt.size),
               steps=c.choice([None, 4]))
    if c.chance(.7):
        run['a'] = c.choice([.1, lambda t: .1*t,
                             c.rng.random(vshape + (1,))])
    if c.chance(.5):
        run['x0'] = .7
    if 'dn' in terms or 'dj' in terms:
        run['lam'] = 2.
    c.sig(q=q, terms=terms, kw=sorted(kw), vshape=vshape, log=log_flag,
          run=sorted(run), mine=mine)
    r1 = as_tuple(A(rng=np.random.default_rng(3), **run)(tt))
    r2 = as_tuple(B(rng=np.random.default_rng(3), **run)(tt))
    c.check(len(r1) == len(r2) == nv, 'integrate-results')
    for a, b in zip(r1, r2):
        c.equal(a.x, b.x, 'integrate-vs-class')
        c.equal(a.t, b.t, 'integrate-vs-class')
        c.ev('pairs_compared')
    # the function itself still is what it was
    if test_eval:
        v = f()
        c.check(isinstance(v, dict if q == 0 else tuple), 'integrate-function')
        # inconsistent specifications
        bad = c.choice([dict(q=q + 1), dict(sources=set(terms) | {'dz'}),
                        dict(q=0 if q else 1), dict(sources=set())])
        c.raises(TypeError, lambda: sd.integrate(f, **bad),
                 'integrate-inconsistent', f'{bad}')


@I10.section(200)
def instances(c):
    """classes made by integrate do not share state"""
    def make(v):
        @sd.integrate
        def P(t=0., x=0., a=v):
            return {'dt': a}
        return P
    v = c.rng.normal(size=3)
    vs = gen.dims(c)
    Ps = [make(float(w)) for w in v]
    ins = [P(vshape=vs, x0=0.) for P in Ps] + \
        [Ps[0](vshape=vs, x0=0., a=float(w)) for w in v]
    c.sig(vs=vs, i=c.index % 13)
    for k in c.rng.permutation(6):
        x = ins[k]([0., 2.])
        c.close(x.x[-1], np.full(vs + (1,), 2*v[k % 3]), 'integrate-state',
                rtol=1e-12)
        c.ev('pairs_compared')
    x = Ps[1](vshape=vs, x0=0.)([0., 1.])
    c.close(x.x[-1], np.full(vs + (1,), v[1]), 'integrate-state')


# =====================================================================
# I11 sources, equations and integrators combine as requested
# =====================================================================
I11 = new(
    'I11', 'processes with sources left to default, given as classes '
    '(recording how they are instantiated) or as instances; preset and user '
    'equations with user integrators, replayed on recorded increments; '
    'non-trivial: distinct (equation, integrator or sources, shape)',
    required=['instantiations', 'pairs_compared', 'recurrence_steps'])


def source_params(c, ws, paths, ids):
    """{keyword: value}, {id: keywords} of the requested sources"""
    kw = {}
    if 'dw' in ids and ws and c.chance(.6):
        kw['corr'] = c.choice([rand_corr(c, ws[-1]),
                               lambda t, C=rand_corr(c, ws[-1]): C])
        if ws[-1] % 2 == 0 and c.chance(.5):
            del kw['corr']
            v = c.rng.uniform(-1, 1, size=c.choice([(), (ws[-1]//2,)])
                              if ws[-1] == 2 else ws[-1]//2)
            kw['rho'] = c.choice([v, v.tolist(), lambda t: v,
                                  lambda t: v*np.cos(t)])
    if ('dn' in ids or 'dj' in ids):
        if c.chance(.7):
            lam = .5 + 3*c.rng.random(c.choice([(), ws + (1,), (paths,),
                                                ws + (paths,)]))
            kw['lam'] = lam if c.chance(.6) else (
                lambda t: lam*(1 + .5*np.cos(t)))
        if c.chance(.4):
            kw['ptype'] = c.choice([int, np.int16, np.int64])
    if 'dj' in ids and c.chance(.6):
        kw['y'] = c.choice([sd.norm_rv(.1, .3), sd.exp_rv(4.),
                            sd.norm_rv(lambda t: t, .2)])
    return kw


def equation(c, ids):
    @sd.integrate(q=0, sources=ids)
    def cls(t, x, k=.3, s=.2):
        A = {'dt': k*x, 'dw': s, 'dn': .1*x, 'dj': .1 + 0*x}
        return {i: A[i] for i in ids}
    return cls


@I11.section(500)
def instantiated(c):
    """how classes of sources are instantiated"""
    name = c.choice(PRESETS + ['user', 'user'])
    ids = {'dt'} | {i for i in ('dw', 'dn', 'dj') if c.chance(.7)}
    if name != 'user':
        ids = {'dw', 'dj'} if name in ('jumpdiff', 'merton', 'kou') else {'dw'}
    ids -= {'dt'}
    vshape, paths = gen.dims(c), c.choice([1, 2, 4])
    ws = vshape
    cls = equation(c, ids | {'dt'}) if name == 'user' else CLASSES[name]
    kw = {}
    if name == 'hw':
        kw['factors'] = c.int(1, 3)
        ws = vshape + (kw['factors'],)
    elif name.startswith('heston'):
        ws = wiener_shape(name, vshape)
    par = source_params(c, ws, paths, ids)
    if name in ('merton', 'kou'):
        par.pop('y', None)
    rng = c.choice([None, np.random.default_rng(3),
                    np.random.RandomState(3)])
    dtype = c.choice([None, float, np.float32])
    made = {}

    def rec(i, base):
        class K(base):
            def __init__(self, *args, **kw):
                made.setdefault(i, []).append((self, args, dict(kw)))
                super().__init__(*args, **kw)
        if i != 'under' and base.__name__[:4] != 'true' and c.chance(.3):
            # a class with no defaults of its own
            ns = dict(K=K)
            names = ['paths', 'vshape', 'dtype', 'rng'] + dict(
                dw=['corr', 'rho'], dn=['lam'],
                dj=['dn', 'lam', 'ptype', 'y'])[i]
            exec('class R(K):\n    def __init__(self, *, '
                 + ', '.join(names) + '):\n        super().__init__('
                 + ', '.join(f'{n}={n}' for n in names) + ')', ns)
            return ns['R']
        return K
    base = dict(dw=[sd.wiener_source, sd.true_wiener_source],
                dn=[sd.poisson_source, sd.true_poisson_source],
                dj=[sd.cpoisson_source, sd.true_cpoisson_source])
    asked = {}
    for i in ids:
        if c.chance(.8):
            b = c.choice(base[i])
            if i == 'dj' and b is sd.true_cpoisson_source and any(
                    callable(par.get(k)) or np.ndim(par.get(k, 0))
                    for k in ('lam', 'y')):
                b = sd.cpoisson_source
            if callable(par.get('corr')) or callable(par.get('rho')):
                b = base[i][0] if i == 'dw' else b
            asked[i] = rec(i, b)
    if 'dn' in asked and 'dj' in ids:
        # the underlying Poisson source of dj is given as well
        del asked['dn']
    under = {}
    if 'dj' in ids and 'dn' not in ids and (
            'dj' not in asked or not issubclass(asked['dj'],
                                                sd.true_cpoisson_source)) \
            and c.chance(.4):
        # the class of the underlying Poisson source of dj
        under['dn'] = rec('under', sd.poisson_source)
    c.sig(name=name, ids=sorted(ids), asked=sorted(asked), under=len(under),
          par=sorted(par), vshape=vshape, dtype=dtype, rng=type(rng).__name__)
    if rng is not None:
        kw['rng'] = rng
    P = cls(paths=paths, vshape=vshape, dtype=dtype, **kw, **par, **asked,
            **under)
    if under:
        c.ev('instantiations')
        (d, a, k), = made['under']
        c.check(d is P.sources['dj'].dn and not a, 'underlying-counts')
        u = k.get('lam', 1.)
        v = par.get('lam', 1.)
        c.check(u is v or (not callable(v) and np.array_equal(u, v)),
                'underlying-counts', 'lam')
    defaults = dict(dw=sd.wiener_source, dn=sd.poisson_source,
                    dj=sd.cpoisson_source)
    for i in ids:
        src = P.sources[i]
        c.check(src.paths == paths and tuple(src.vshape) == ws,
                'source-shape', f'{name} {i}')
        if i not in asked:
            c.check(isinstance(src, defaults[i]), 'source-class', f'{name} {i}')
            continue
        c.ev('instantiations')
        c.check(len(made[i]) == 1 and made[i][0][0] is src,
                'source-class', f'{name} {i}')
        _, a, k = made[i][0]
        c.check(not a, 'source-arguments')
        c.check(k.pop('paths') == paths, 'source-arguments', 'paths')
        c.check(tuple(np.atleast_1d(k.pop('vshape'))) == ws,
                'source-arguments', 'vshape')
        r = k.pop('rng', None)
        c.check(r is rng or (rng is None and r is P.rng),
                'source-arguments', 'rng')
        c.check(np.dtype(k.pop('dtype', None)) == np.dtype(
            par.get('ptype', int) if i == 'dn' else dtype),
            'source-arguments', f'{i} dtype')
        if i == 'dj':
            # the underlying counts
            c.check(np.dtype(src.dn.dtype) == np.dtype(par.get('ptype', int))
                    and src.dn.rng is src.rng and src.dn.paths == paths
                    and tuple(src.dn.vshape) == ws, 'underlying-counts',
                    f'{src.dn.dtype} {par.get("ptype")}')
        names = dict(dw=('corr', 'rho'), dn=('lam',),
                     dj=('dn', 'lam', 'ptype', 'y'))[i]
        c.check(set(k) <= set(names), 'source-arguments', f'{i} {set(k)}')
        for nm in names:
            if nm == 'dn' and under:
                c.check(k.get('dn') is under['dn'], 'source-arguments')
            elif nm in par:
                u, v = k.get(nm), par[nm]
                c.check(u is v or (not callable(v) and not hasattr(v, 'rvs')
                                   and np.array_equal(u, v)),
                        'source-arguments',
                        f'{i} {nm}: {k.get(nm)} for {par[nm]}')
            elif not (nm == 'y' and name in ('merton', 'kou')):
                c.check(k.get(nm) == dict(lam=1., ptype=int).get(nm),
                        'source-arguments', f'{i} {nm}: {k.get(nm)}')
    want = dict(paths=paths, dtype=dtype, vshape=vshape)
    for k, v in want.items():
        c.check(getattr(P, k) == v, 'attributes', f'{k} {getattr(P, k)}')
    c.check(rng is None or P.rng is rng, 'attributes', 'rng')
    x = as_tuple(P(np.array([0., .3, 1.])))
    c.check(x[0].shape == (3,) + vshape + (paths,), 'attributes')


@I11.section(600)
def explicit_sources(c):
    """default sources, classes and instances give the same results"""
    name = c.choice(PRESETS[:-2] + ['user', 'user', 'user'])
    ids = {i for i in ('dw', 'dn', 'dj') if c.chance(.6)} or {'dw'}
    if name != 'user':
        ids = {'dw', 'dj'} if name in ('jumpdiff',) else {'dw'}
    vshape, paths = gen.dims(c), c.choice([1, 2, 4])
    ws, kw = vshape, {}
    cls = equation(c, ids | {'dt'}) if name == 'user' else CLASSES[name]
    if name == 'hw':
        kw['factors'] = c.int(1, 3)
        ws = vshape + (kw['factors'],)
    elif name.startswith('heston'):
        ws = wiener_shape(name, vshape)
    par = source_params(c, ws, paths, ids)
    dtype = c.choice([None, float, np.float32])
    tt = short_timeline(c, lo=2, hi=5)
    kw.update(paths=paths, vshape=vshape, dtype=dtype,
              steps=c.choice([None, 5]), i0=start_index(c, tt.size))
    gen_ = lambda: rng_from(gk, c.index)
    gk = c.choice(['pcg', 'mt', 'rs'])
    K = dict(dw=sd.wiener_source, dn=sd.poisson_source,
             dj=sd.cpoisson_source)
    keys = dict(dw=['corr', 'rho'], dn=['lam'], dj=['lam', 'ptype', 'y'])
    a = as_tuple(cls(rng=gen_(), **par, **kw)(tt))
    c.sig(name=name, ids=sorted(ids), par=sorted(par), vshape=vshape,
          dtype=dtype, gk=gk)
    g = gen_()
    given = {}
    for i in ids:
        k = {n: par[n] for n in keys[i] if n in par}
        k['dtype'] = par.get('ptype', int) if i == 'dn' else dtype
        how = c.choice(['class', 'instance', 'instance'])
        if 'dj' in ids and i == 'dn':
            how = 'default'
        given[i] = how
        if how == 'class':
            kw[i] = K[i]
        elif how == 'instance':
            kw[i] = K[i](paths=paths, vshape=ws, rng=g, **k)
    c.note(given=given)
    rest = {n: z for n, z in par.items()
            if any(n in keys[i] and given[i] != 'instance' for i in ids)
            or (n == 'ptype' and given.get('dn', '') not in ('', 'instance'))
            or c.chance(.5)}
    b = as_tuple(cls(rng=g, **rest, **kw)(tt))
    for x, y in zip(a, b):
        c.check(x.dtype == y.dtype, 'explicit-dtype', name)
        c.equal(x.x, y.x, 'explicit-sources', f'{name} {given}')
        c.ev('pairs_compared')


EQUATIONS = dict(
    wiener=sd.wiener_SDE, lognorm=sd.lognorm_SDE,
    oruh=sd.ornstein_uhlenbeck_SDE, hw=sd.hull_white_SDE,
    cir=sd.cox_ingersoll_ross_SDE, heston_xy=sd.full_heston_SDE,
    heston=sd.heston_SDE, jumpdiff=sd.jumpdiff_SDE)


def user_integrator(style, splits):
    """integrators equivalent to Euler's, on possibly finer steps"""

    class Mine(integrator):
        def split_next(self):
            iv = self.itervars
            sw, xw = iv['sw'], iv['xw']
            if len(splits) < 60:
                s = sw[0] + (sw[1] - sw[0])*.5
                if min(sw[0], sw[1]) < s < max(sw[0], sw[1]):
                    sw[1] = s
            splits.append(float(sw[1]))
            self.euler_next()

        def mine_next(self):
            iv = self.itervars
            sw, xw = iv['sw'], iv['xw']
            t, dt, x = sw[0], sw[1] - sw[0], xw[0]
            dZ = self.dZ(t, dt)
            A = self.A(t, x)
            y = np.array(x)
            for i in A:
                y += A[i]*dZ[i]
            xw[1][...] = y
            iv.update(last_t=t, last_dt=dt, last_x=x, last_A=A, last_dZ=dZ,
                      new_x=xw[1])
            splits.append(float(sw[1]))
    if style == 'default':
        class Default(Mine):
            euler_next = Mine.mine_next
        return Default, {}
    return Mine, dict(method=style)


@I11.section(600)
def integrators(c):
    name = c.choice(list(EQUATIONS))
    vshape, paths, F, args, evs, kinds, src, eff = preset_case(c, name)
    tt = short_timeline(c, hi=5, kind=c.choice(['rand', 'int', 'cross']))
    n = tt.size
    i0 = start_index(c, n)
    j0 = int(np.arange(n)[i0])
    fl = tt.astype(float)
    splits = []
    style = c.choice(['split', 'mine', 'default'])
    K, kw = user_integrator(style, splits)

    class P(EQUATIONS[name], K):
        pass
    c.sig(name=name, style=style, kinds=kinds, vshape=vshape, i0=int(i0), n=n)
    p = P(paths=paths, vshape=vshape, i0=i0, getinfo=c.chance(.7),
          **args, **src, **kw)
    c.check(p.method == kw.get('method', 'euler'), 'method-attribute')
    res = p(tt)

    def steps(reverse):
        d = src['dw'].run(reverse)
        for t, v in d.items():
            c.check(len(v) == 1, 'source-called-twice')
        ts = sorted(d, reverse=reverse)
        lim = fl[0] if reverse else fl[-1]
        pts = ts + [lim]
        c.check(fl[j0] == lim or (ts and ts[0] == fl[j0]), 'first-step')
        if not ts:
            return []
        want = fl[:j0 + 1] if reverse else fl[j0:]
        c.check(set(want) <= set(pts), 'timeline-missed')
        return list(zip(ts, [d[t][0][0] for t in ts], pts[1:]))
    c.check(set(splits) == {u for r in (True, False)
                            for _, _, u in steps(r)}, 'steps-taken')
    ref, _, _ = preset_reference(name, evs, src, steps, vshape, paths, F,
                                 eff, fl[j0])
    c.ev('recurrence_steps', len(ref) - 1)
    comps = res if name == 'heston_xy' else (res,)
    for i, x in enumerate(comps):
        want = np.stack([ref[t][i] for t in fl])
        if name in ('lognorm', 'jumpdiff') or \
                name.startswith('heston') and i == 0:
            want = np.exp(want)
        if name == 'hw':
            want = want.sum(axis=-2)
        c.equal(x.t, tt, 'integrator-timeline')
        ok = np.isfinite(want) & (np.abs(want) < 1e30)
        c.close(np.where(ok, x.x, 0), np.where(ok, want, 0),
                'integrator-values', f'{name} {style} {i}', rtol=1e-9)


@I11.section(500)
def alive(c):
    """instances of the same, or of related classes, with different
    integration methods, parameters and shapes, used in turn or within
    each other, behave as if they were alone"""
    r = c.rng
    k = c.choice(['user', 'preset', 'system'])

    class Mixed(integrator):
        def double_next(self):
            # Euler's, with doubled increments
            iv = self.itervars
            x = np.array(iv['xw'][0])
            self.euler_next()
            iv['xw'][1][...] += iv['xw'][1] - x

        def frozen_next(self):
            self.euler_next()
            self.itervars['xw'][1][...] = self.itervars['xw'][0]
    inner = []
    if k == 'user':
        class P(SDE, Mixed):
            def sde(self, t, x, k=.3, s=.2):
                if inner and t > .3:
                    f = inner.pop()
                    f()
                return {'dt': k*(1 - x), 'dw': s}
    elif k == 'system':
        class P(SDEs, Mixed):
            q = 2
            sources = {'dt', 'dw'}

            def sde(self, t, x, y, k=.3, s=.2):
                if inner and t > .3:
                    f = inner.pop()
                    f()
                return {'dt': k*y, 'dw': s}, {'dt': 0*x - .1, 'dw': s*x}
    else:
        base = EQUATIONS[c.choice(list(EQUATIONS))]

        class P(base, Mixed):
            def info_next(self):
                if inner:
                    inner.pop()()
                super().info_next()
    if c.chance(.3):
        class P2(P):
            pass
    else:
        P2 = P
    tt = np.cumsum(np.append(0, r.random(3) + .1))
    specs = []
    for i in range(c.int(2, 4)):
        kw = dict(method=c.choice(['euler', 'double', 'frozen']),
                  paths=c.choice([1, 2, 3]), vshape=c.choice([(), (2,), (4,)]),
                  i0=c.choice([0, 0, -1, 2]), steps=c.choice([None, 7]),
                  dtype=c.choice([None, None, float, np.float32]),
                  getinfo=c.chance(.8))
        if k != 'preset':
            kw['k'] = float(r.random())
            kw['s'] = c.choice([.3, lambda t: 1 + t])
            kw['x0'] = float(r.normal())
        specs.append((c.choice([P, P2]), kw, c.int(0, 10**6)))
    make = lambda sp: sp[0](rng=np.random.default_rng(sp[2]), **sp[1])
    run = lambda p: [x.x.copy() for x in as_tuple(p(tt))]
    alone = []
    for sp in specs:
        p = make(sp)
        alone.append([run(p), run(p)])
    live = [make(sp) for sp in specs]
    nest = c.chance(.5)
    c.sig(k=k, methods=[sp[1]['method'] for sp in specs], nest=nest,
          shapes=[sp[1]['vshape'] for sp in specs])
    count = [0]*len(specs)

    def one(i):
        # nested: another instance is integrated, in the meanwhile
        if nest and not inner:
            free = [j for j in range(len(specs)) if j != i and count[j] < 2]
            if free:
                j = c.choice(free)
                busy.add(i)
                inner.append(lambda: j in busy or count[j] > 1 or one(j))
        busy.add(i)
        got = run(live[i])
        busy.discard(i)
        for x, y in zip(got, alone[i][count[i]]):
            c.equal(x, y, 'instances-interfere', f'{k} {specs[i][1]}')
            c.ev('pairs_compared')
        count[i] += 1
    busy = set()
    for rep in range(2):
        for i in r.permutation(len(specs)):
            if count[i] <= rep:
                one(int(i))
    for p, sp in zip(live, specs):
        for a in ('method', 'paths', 'vshape', 'i0', 'getinfo'):
            c.check(getattr(p, a) == sp[1][a], 'attributes', a)


@I11.section(300)
def heun(c):
    """a predictor-corrector method, on user equations and systems"""
    vshape, paths = gen.dims(c), c.choice([1, 3])
    k, th, s = c.rng.random(3) + .2
    q = c.choice([0, 0, 2])
    ws = vshape if not q else (
        (2,) if vshape == () else vshape[:-1] + (2*vshape[-1],))

    class Heun(integrator):
        def heun_next(self):
            iv = self.itervars
            sw, xw = iv['sw'], iv['xw']
            t, h, x = sw[0], sw[1] - sw[0], xw[0]
            dZ, A = self.dZ(t, h), self.A(t, x)
            y = x + sum(A[i]*dZ[i] for i in A)
            B = self.A(sw[1], y)
            xw[1][...] = x + sum((A[i] + B[i])/2*dZ[i] for i in A)
            iv.update(last_t=t, last_dt=h, last_x=x, last_A=A, last_dZ=dZ,
                      new_x=xw[1])
    f = lambda t, x: (k*(th - x)*np.cos(t), s*x)
    if q:
        class P(SDEs, Heun):
            q = 2
            addaxis = False

            def sde(self, t, x, y, a=.5):
                u, v = f(t, x)
                return {'dt': u, 'dw': v}, {'dt': a(t) if callable(a)
                                            else a*y, 'dw': 0}
    else:
        class P(SDE, Heun):
            def sde(self, t, x):
                u, v = f(t, x)
                return {'dt': u, 'dw': v}
    if q and vshape == ():
        P.addaxis = True
        ws = (2,)
    tt = short_timeline(c, lo=2, hi=5, kind='rand')
    i0 = start_index(c, tt.size)
    j0 = int(np.arange(tt.size)[i0])
    rec = Rec(sd.wiener_source(paths=paths, vshape=ws,
                               rng=np.random.default_rng(c.index)))
    x0 = 1 + c.rng.random(ws + (paths,)) if not q else .7
    c.sig(vshape=vshape, q=q, n=tt.size, i0=int(i0))
    res = as_tuple(P(paths=paths, vshape=vshape, method='heun', dw=rec,
                     x0=x0, i0=i0)(tt))
    pick = (lambda z: z) if not q else (
        (lambda z: z[..., 0, :]) if vshape == () else
        (lambda z: z[..., :vshape[-1], :]))
    y0 = np.broadcast_to(x0, vshape + (paths,)).astype(float)
    ref = {tt[j0]: y0}
    for reverse in (True, False):
        y = y0
        d = rec.run(reverse)
        ts = sorted(d, reverse=reverse)
        for t, t1 in zip(ts, ts[1:] + [tt[0] if reverse else tt[-1]]):
            dt, dw = d[t][0]
            dw = pick(dw)
            u, v = f(t, y)
            z = y + u*dt + v*dw
            u1, v1 = f(t1, z)
            y = y + (u + u1)/2*dt + (v + v1)/2*dw
            ref[t1] = y
            c.ev('recurrence_steps')
    c.close(res[0].x, np.stack([ref[t] for t in tt]), 'heun', rtol=1e-9)
