"""Monitors for stochasticity sources (S01-S07)."""
import numpy as np
import scipy.integrate
import scipy.stats
import sdepy as sd
import sdepy.infrastructure as infra
from sdepy import process

from ..core import Check, Inconclusive
from .. import gen, stats

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


def make_rng(c, k=0):
    s = int(c.sub_rng(k).integers(2**31))
    kind = c.choice(['pcg', 'pcg', 'mt', 'rs'])
    return rng_from(kind, s), kind, s


def rng_from(kind, s):
    if kind == 'pcg':
        return np.random.default_rng(s)
    if kind == 'mt':
        return np.random.Generator(np.random.MT19937(s))
    return np.random.RandomState(s)


def rand_corr(c, M, strength=None):
    """a random, well conditioned, correlation matrix"""
    a = c.rng.normal(size=(M, M + 2))
    C = a @ a.T
    d = np.sqrt(np.diag(C))
    C = C/np.outer(d, d)
    w = .75 if strength is None else strength
    C = w*C + (1 - w)*np.eye(M)
    return C


def tdt(c, shape=None, neg=True):
    """random t, dt of any (broadcastable) shapes"""
    shapes = [((), ()), ((), ()), ((3,), ()), ((), (4,)), ((2, 1), (1, 3)),
              ((5,), (5,)), ((2, 2), (2, 2)), ((1,), ()), ((0,), ())]
    ts, ds = c.choice(shapes)
    t = c.rng.normal(size=ts)*c.choice([1., 1., 10.])
    dt = c.rng.random(ds)*c.choice([1., .1, 3.]) + 1e-3
    if neg and c.chance(.35):
        dt = dt*np.where(c.rng.random(ds) < .5, -1, 1)
    if c.chance(.1):
        dt = dt*0
    if c.chance(.1):
        t, dt = np.rint(t).astype(int), np.rint(dt*3).astype(int)
    return t, dt


class Stub:
    """A stochasticity source replaying prescribed integer increments and
    recording its calls."""

    def __init__(self, rng, paths, vshape, high=4):
        self.paths, self.vshape, self.dtype = paths, vshape, int
        self.r, self.high, self.calls = rng, high, []
        self.lam = 1.

    def __call__(self, t, dt=None):
        t, dt = np.broadcast_arrays(t, dt)
        n = self.r.integers(0, self.high, size=t.shape + self.vshape
                            + (self.paths,))
        n = n*np.sign(dt).astype(int).reshape(
            dt.shape + (1,)*(len(self.vshape) + 1))
        self.calls.append((t.copy(), dt.copy(), n.copy()))
        return n


class ConstY:
    """distribution with all its mass in v"""

    def __init__(self, v):
        self.v = v

    def rvs(self, size=None, random_state=None):
        return np.full(size, self.v, float)


class TagY:
    """each variate is a distinct power of 2, so that any sum of variates
    identifies its addends"""

    def __init__(self):
        self.k = 0
        self.draws = []

    rng = None

    def rvs(self, size=None, random_state=None):
        if self.rng is not None:
            self.rng.tick()
        n = int(np.prod(size, dtype=int))
        if self.k + n > 50:
            raise Inconclusive('too many jumps')
        out = 2.**np.arange(self.k, self.k + n)
        self.k += n
        return out.reshape(size)


class Fault(BaseException):
    """an interruption"""


class Interrupted(np.random.Generator):
    """a generator which may be interrupted, when variates are requested"""
    fuse = None

    def tick(self):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                raise Fault


def _interruptible(name):
    def f(self, *args, **kw):
        self.tick()
        return getattr(np.random.Generator, name)(self, *args, **kw)
    return f


for _name in ('random', 'normal', 'standard_normal', 'poisson', 'binomial',
              'uniform', 'exponential', 'standard_exponential',
              'multivariate_normal', 'integers', 'choice', 'permutation',
              'shuffle', 'permuted', 'geometric', 'gamma'):
    setattr(Interrupted, _name, _interruptible(_name))


def with_faults(c, gens, p, f):
    """f(), possibly interrupted"""
    if gens and c.chance(p):
        for g in gens:
            g.fuse = c.int(0, 4)
        try:
            f()
        except Fault:
            c.ev('faults')
        finally:
            for g in gens:
                g.fuse = None
    else:
        f()


SOURCES = ['wiener_source', 'poisson_source', 'cpoisson_source',
           'odd_wiener_source', 'even_poisson_source', 'even_cpoisson_source',
           'true_wiener_source', 'true_poisson_source',
           'true_cpoisson_source']


def make_source(c, name, rng, paths, vshape, **kw):
    return getattr(sd, name)(paths=paths, vshape=vshape, rng=rng, **kw)


# =====================================================================
# S01 protocol, shapes, random generator discipline
# =====================================================================
S01 = new(
    'S01', 'all nine source classes, random shapes of time arguments, values '
    'and paths, dtypes and generators (PCG64, MT19937, RandomState); global '
    'generators are watched; non-trivial: distinct (class, shapes, dtype, '
    'generator)', required=['rejections_observed', 'generators_watched'])


def global_states():
    s = np.random.get_state()
    d = infra.default_rng
    return (s[1].tobytes(), s[2], repr(d.bit_generator.state))


def source_args(c, name, vshape, paths):
    kw = {}
    if 'wiener' in name:
        if vshape and c.chance(.4):
            M = vshape[-1]
            if M % 2 == 0 and c.chance(.5):
                r = c.rng.random(M//2)*1.6 - .8
                if M == 2 and c.chance(.5):
                    r = float(r[0])
                kw['rho'] = r if c.chance(.6) else (lambda t: r*np.cos(t))
            else:
                C = rand_corr(c, M)
                kw['corr'] = C if c.chance(.6) else \
                    (lambda t: C*.5 + .5*np.eye(M))
    else:
        n2 = paths//2 if name.startswith('even') else paths
        lam = c.choice([1., .3, 4., 'arr', 'fun', 0.])
        if lam == 'arr':
            lam = c.rng.random(vshape + (c.choice([1, n2]),))*2
        elif lam == 'fun':
            lam = (lambda t: 1. + np.sin(t)**2)
        kw['lam'] = lam
        if 'cpois' in name:
            kw['y'] = c.choice([
                None, sd.norm_rv(.2, .5), sd.exp_rv(.4), sd.uniform_rv(-1, 2),
                sd.double_exp_rv(.3, .4, .6),
                sd.norm_rv(lambda t: .1*np.cos(t), .3),
                scipy.stats.gamma(2.), sd.rvmap(lambda y: y*y, sd.norm_rv())])
    return kw


@S01.section(2500)
def protocol(c):
    name = c.choice(SOURCES)
    true = name.startswith('true')
    anti = name.startswith(('odd', 'even'))
    vshape = gen.dims(c)
    paths = c.choice([1, 2, 3, 10])*(2 if anti else 1)
    kw = source_args(c, name, vshape, paths)
    dtype = c.choice([None, None, float, np.float32]) if 'wiener' in name \
        else c.choice([None, int, float] if 'cpoisson' not in name
                      else [None, float, np.float32])
    if dtype is not None:
        kw['dtype'] = dtype
    if true:
        kw['t0'] = c.choice([0., 1., -2])
        if '_poisson' not in name:
            kw['z0'] = c.choice([0., 1.5])
    rng, kind, s = make_rng(c)
    t, dt = tdt(c)
    vs = vshape[0] if len(vshape) == 1 and c.chance(.5) else vshape
    c.sig(name=name, vshape=vshape, paths=paths, kw=sorted(kw), dtype=dtype,
          kind=kind, tshape=np.shape(t), dtshape=np.shape(dt))
    g0 = global_states()
    src = make_source(c, name, rng, paths, vs, **kw)
    c.check(src.rng is rng, 'rng-attribute')
    c.check(src.paths == paths and tuple(src.vshape) == vshape,
            'protocol-attributes', f'{src.paths} {src.vshape}')
    args_t = t if c.chance(.6) else t.tolist()
    z = src(args_t, dt)
    tshape = np.broadcast(t, dt).shape
    c.check(type(z) is np.ndarray, 'source-type')
    c.check(z.shape == tshape + vshape + (paths,), 'source-shape',
            f'{name} {z.shape} vs {tshape + vshape + (paths,)}')
    if dtype is not None:
        c.check(z.dtype == np.dtype(dtype), 'source-dtype',
                f'{name} {z.dtype} vs {dtype}')
    elif name in ('poisson_source', 'true_poisson_source'):
        c.check(z.dtype.kind == 'i', 'source-dtype', f'{name} {z.dtype}')
    elif name != 'even_poisson_source':
        c.check(z.dtype == np.float64, 'source-dtype', f'{name} {z.dtype}')
    c.check(np.isfinite(z).all(), 'source-finite')
    if not true:
        c.check(src.size == 0 and src.t.shape == (0,), 'memoryless-memory')
    z2 = src(t, dt)
    # zero time steps entail zero increments
    zz = src(t, 0*np.asarray(dt))
    c.check((np.asarray(zz) == 0).all(), 'zero-dt', name)
    if true:
        z1 = src(args_t)
        c.check(z1.shape == np.shape(t) + vshape + (paths,),
                'source-shape', f'{name}(t)')
    # the generators outside of the source were not touched
    c.check(global_states() == g0, 'global-generator-touched', name)
    c.ev('generators_watched')
    # same seed, same calls, same results
    src2 = make_source(c, name, rng_from(kind, s), paths, vs, **kw)
    c.equal(src2(args_t, dt), z, 'not-reproducible', name)
    c.equal(src2(t, dt), z2, 'not-reproducible', name)


@S01.section(300)
def other_seed(c):
    """results depend on the given generator, and on nothing else"""
    name = c.choice(SOURCES)
    vshape = gen.dims(c)
    paths = 40
    kw = dict(lam=20.) if 'pois' in name else {}
    c.sig(name=name, vshape=vshape)
    a = make_source(c, name, np.random.default_rng(1), paths, vshape, **kw)
    b = make_source(c, name, np.random.default_rng(2), paths, vshape, **kw)
    x, y = a(0., 1.), b(0., 1.)
    c.check(not np.array_equal(x, y), 'seed-ignored', name)
    # a source shares, and advances, the generator it is given
    rng = np.random.default_rng(3)
    s0 = repr(rng.bit_generator.state)
    a = make_source(c, name, rng, paths, vshape, **kw)
    x1, x2 = a(0., 1.), a(2., 1.)
    c.check(repr(rng.bit_generator.state) != s0, 'generator-not-used', name)
    c.check(not np.array_equal(x1, x2), 'increments-repeated', name)
    b = make_source(c, name, rng, paths, vshape, **kw)
    c.check(not np.array_equal(b(0., 1.), x1), 'increments-repeated', name)
    c.ev('generators_watched')


@S01.section(300)
def composed(c):
    """compound Poisson sources of given Poisson increments: jumps come
    from the generator of the source, counts from their own"""
    vshape, paths = gen.dims(c), c.choice([1, 2, 5, 30])
    kinds = c.choice(['pcg', 'mt', 'rs']), c.choice(['pcg', 'mt', 'rs'])
    yk, y = c.choice([
        ('none', None), ('norm', sd.norm_rv(.2, .5)), ('exp', sd.exp_rv(.4)),
        ('unif', sd.uniform_rv(-1, 2)), ('gamma', scipy.stats.gamma(2.)),
        ('dexp', sd.double_exp_rv(.3, .4, .6)),
        ('norm_t', sd.norm_rv(lambda t: .1*np.cos(t), .3)),
        ('rvmap', sd.rvmap(lambda y: y*y, sd.norm_rv()))])
    calls = [tdt(c) for _ in range(c.int(1, 3))]
    s1, s2 = c.index, c.index + 10**6
    dtype = c.choice([None, None, np.float32])
    c.sig(vshape=vshape, paths=paths, kinds=kinds, yk=yk, n=len(calls))
    g0 = global_states()

    def run(mode):
        r1, r2 = rng_from(kinds[0], s1), rng_from(kinds[1], s2)
        dn = sd.poisson_source(paths=paths, vshape=vshape, lam=3., rng=r1)
        if mode == 'replay':
            # same counts, from an object with no generator, or other ones
            vals = [dn(t, dt) for t, dt in calls]

            class DN:
                rng = c.choice([None, np.random.default_rng(), r1])
                lam = 1.

                def __call__(self, t, dt):
                    return vals.pop(0)
            dn = DN()
            dn.paths, dn.vshape = paths, vshape
            if c.chance(.3):
                del DN.rng
        dj = sd.cpoisson_source(paths=paths, vshape=vshape, dn=dn, y=y,
                                rng=r2, dtype=dtype)
        c.check(dj.rng is r2, 'rng-attribute')
        return [dj(t, dt) for t, dt in calls]
    a, b = run('given'), run('replay')
    for u, v in zip(a, b):
        c.equal(u, v, 'jumps-generator', f'{yk} {kinds}')
    # counts alone, from the same generator
    dn = sd.poisson_source(paths=paths, vshape=vshape, lam=3.,
                           rng=rng_from(kinds[0], s1))
    for (t, dt), u in zip(calls, a):
        c.check((u[dn(t, dt) == 0] == 0).all(), 'counts-generator', yk)
    c.check(global_states() == g0, 'global-generator-touched', yk)
    c.ev('generators_watched')


@S01.section(400)
def alive(c):
    """sources used in turn do not interfere"""
    K = c.int(2, 4)
    specs = []
    same = c.choice([None, c.choice(SOURCES)])
    for i in range(K):
        name = same or c.choice(SOURCES)
        vshape = gen.dims(c, 2)
        paths = c.choice([1, 2, 3])*(
            2 if name.startswith(('odd', 'even')) else 1)
        specs.append((name, vshape, paths,
                      source_args(c, name, vshape, paths), c.int(0, 999)))
    make = lambda sp: make_source(c, sp[0], np.random.default_rng(sp[4]),
                                  sp[2], sp[1], **sp[3])
    n = c.int(2, 4)
    calls = [[tdt(c) for _ in range(n)] for _ in range(K)]
    c.sig(names=[sp[0] for sp in specs], shapes=[sp[1] for sp in specs], n=n)
    alone = []
    for sp, cl in zip(specs, calls):
        src = make(sp)
        alone.append([src(t, dt) for t, dt in cl])
    live = [make(sp) for sp in specs]
    keep = []
    for j in range(n):
        for i in c.rng.permutation(K):
            z = live[i](*calls[i][j])
            c.equal(z, alone[i][j], 'sources-interfere',
                    f'{specs[i][0]} call {j}')
            keep.append((z, z.copy()))
    for z, k in keep:
        c.equal(z, k, 'increments-overwritten')


@S01.section(300)
def default_generator(c):
    name = c.choice(SOURCES)
    vshape = gen.dims(c)
    paths = 30
    kw = dict(lam=5.) if 'pois' in name else {}
    c.sig(name=name, vshape=vshape)
    old = infra.default_rng
    np_state = np.random.get_state()[1].tobytes()
    try:
        outs = []
        for i in range(2):
            infra.default_rng = np.random.default_rng(99)
            src = getattr(sd, name)(paths=paths, vshape=vshape, **kw)
            c.check(src.rng is infra.default_rng, 'default-rng', name)
            outs.append(src(0.5, 1.))
        c.equal(outs[0], outs[1], 'default-rng', name)
        infra.default_rng = np.random.default_rng(99)
        src = getattr(sd, name)(paths=paths, vshape=vshape,
                                rng=np.random.default_rng(99), **kw)
        c.equal(src(0.5, 1.), outs[0], 'default-rng', name)
        # the default in force at instantiation is kept
        g = infra.default_rng = np.random.default_rng(99)
        src = getattr(sd, name)(paths=paths, vshape=vshape, **kw)
        other = infra.default_rng = np.random.default_rng(7)
        state = str(other.bit_generator.state)
        c.equal(src(0.5, 1.), outs[0], 'default-rng-kept', name)
        c.check(src.rng is g, 'default-rng-kept', name)
        c.check(str(other.bit_generator.state) == state,
                'default-rng-kept', name)
    finally:
        infra.default_rng = old
    c.check(np.random.get_state()[1].tobytes() == np_state,
            'global-generator-touched')
    c.ev('generators_watched')


@S01.section(400)
def rejected(c):
    k = c.choice(['seed', 'seed_true', 'odd', 'corr_shape', 'corr_scalar',
                  'corr_square', 'corr_paths', 'rho_shape', 'rho_paths',
                  'corr_path_dependent', 'rho_path_dependent', 'lam_shape', 'lam_paths', 'dn_paths', 'dn_type',
                  'dn_vshape'])
    c.sig(k=k, i=c.index % 17)
    M = c.int(2, 4)
    rs = c.choice([1, [1, 2], np.arange(3), np.int64(3)])
    W = c.choice([sd.wiener_source, sd.true_wiener_source])
    P = c.int(2, 4)
    ta = np.array([0., c.rng.uniform(.5, 3.)])
    how = c.choice(['process', 'callable', 'callable-process'])

    def path_dependent(name, value):
        # documented as not supported, whenever it gets detected
        v = np.repeat(value[..., None], P, axis=-1)
        pr = sd.process(ta, x=np.stack([v, v]))
        par = {'process': pr, 'callable': lambda t: v,
               'callable-process': lambda t: pr(t)}[how]
        # z0: the second time is inside the first interval (true sources)
        z = W(vshape=(2*M,), paths=c.choice([1, P]), **{name: par})
        return z(0., 1.), z(0., .5)
    exc, f = {
        'corr_path_dependent': (ValueError, lambda: path_dependent(
            'corr', np.eye(2*M))),
        'rho_path_dependent': (ValueError, lambda: path_dependent(
            'rho', np.zeros(M))),
        'seed': (TypeError, lambda: getattr(
            sd, c.choice(SOURCES[:6]))(rng=rs, paths=2)),
        'seed_true': (TypeError, lambda: getattr(
            sd, c.choice(SOURCES[6:]))(rng=rs)),
        'odd': (ValueError, lambda: getattr(
            sd, c.choice(SOURCES[3:6]))(paths=c.choice([1, 3, 11]))),
        'corr_shape': (ValueError, lambda: sd.wiener_source(
            vshape=(M + 1,), corr=np.eye(M))),
        'corr_scalar': (ValueError, lambda: c.choice(
            [sd.wiener_source, sd.true_wiener_source])(
            vshape=(), corr=np.eye(M))),
        'corr_square': (ValueError, lambda: sd.wiener_source(
            vshape=(M,), corr=np.ones((M, M + 1)))),
        'corr_paths': (ValueError, lambda: sd.wiener_source(
            vshape=(M,), paths=3, corr=np.ones((M, M, 3)))),
        'rho_shape': (ValueError, lambda: sd.wiener_source(
            vshape=(2*M + 2,), rho=np.zeros(M))),
        'rho_paths': (ValueError, lambda: sd.wiener_source(
            vshape=(2*M,), paths=3, rho=np.zeros((M, 3)))),
        'lam_shape': (ValueError, lambda: c.choice(
            [sd.poisson_source, sd.cpoisson_source, sd.true_poisson_source])(
            vshape=(M,), lam=np.ones((M + 1, 1)))),
        'lam_paths': (ValueError, lambda: sd.poisson_source(
            vshape=(M,), paths=M + 2, lam=np.ones((M, M + 1)))),
        'dn_paths': (ValueError, lambda: sd.cpoisson_source(
            paths=3, dn=sd.poisson_source(paths=4))),
        'dn_type': (ValueError, lambda: sd.cpoisson_source(
            paths=3, dn=c.choice([lambda t, dt: 1, 3, 'x']))),
        'dn_vshape': (ValueError, lambda: sd.cpoisson_source(
            paths=3, vshape=(2,), dn=sd.poisson_source(paths=3,
                                                       vshape=(3,)))),
    }[k]
    c.raises(exc, f, 'malformed-source-accepted', k)


# =====================================================================
# S02 Wiener increments
# =====================================================================
S02 = new(
    'S02', 'random Wiener sources (plain, array/callable/process corr, '
    'scalar/vector/callable rho), time arguments of any shape and sign; '
    'whitened increments are tested as iid standard normal variates; '
    'non-trivial: distinct (correlation spec, shapes)',
    required=['statistical_samples', 'ks_tests', 'uniqueness_checked'])


def corr_spec(c, M):
    """(kwargs, corr(t) as a plain function)"""
    kinds = ['none', 'corr', 'corr', 'corr_t', 'corr_t', 'corr1', 'corr_p',
             'both']
    if M % 2 == 0:
        kinds += ['rho', 'rho', 'rho_t', 'rho1', 'rho_p']
    k = c.choice(kinds)
    if k == 'none':
        return k, {}, lambda t: np.eye(M)
    if k.startswith('corr') or k == 'both':
        C, D = rand_corr(c, M), rand_corr(c, M)
        w = lambda t: .5 + .5*np.sin(3*t)
        ct = lambda t: C*w(t) + D*(1 - w(t))
        if k == 'corr':
            return k, dict(corr=C), lambda t: C
        if k == 'both':   # corr overrides rho
            v, f = c.choice([(C, lambda t: C), (C[..., None], lambda t: C),
                             (ct, ct)])
            kw = dict(corr=v)
            if M % 2 == 0:
                kw['rho'] = c.choice([np.full(M//2, .3), .3,
                                      lambda t: np.full(M//2, .3)])
            return k, kw, f
        if k == 'corr1':
            return k, dict(corr=C[..., None]), lambda t: C
        if k == 'corr_t':
            return k, dict(corr=ct), ct
        p = process([-50., 50.], v=[C, D])
        return k, dict(corr=p), lambda t: C + (D - C)*np.clip(
            (t + 50)/100, 0, 1)
    K = M//2
    r = c.rng.random(K)*1.8 - .9

    def mat(r):
        r = np.broadcast_to(np.asarray(r), (K,))
        C = np.eye(M)
        for i in range(K):
            C[i, K + i] = C[K + i, i] = r[i]
        return C
    if k == 'rho':
        if K == 1 and c.chance(.5):
            return 'rho_scalar', dict(rho=float(r[0])), lambda t: mat(r)
        return k, dict(rho=r), lambda t: mat(r)
    if k == 'rho1':
        return k, dict(rho=r[:, None]), lambda t: mat(r)
    if k == 'rho_t':
        f = (lambda t: float(r[0])*np.cos(2*t)) if K == 1 and c.chance(.5) \
            else (lambda t: r*np.cos(2*t))
        return k, dict(rho=f), lambda t: mat(f(t))
    p = process([-50., 50.], v=[r, -r])
    return k, dict(rho=p), lambda t: mat(r*(1 - 2*np.clip(
        (t + 50)/100, 0, 1)))


def whiten(z, t, dt, nv, corr):
    """z: tshape + vshape + (paths,) -> independent standard normals"""
    t, dt = np.broadcast_arrays(t, dt)
    w = np.empty(z.shape)
    for i in np.ndindex(t.shape):
        zi = z[i]/np.sqrt(abs(float(dt[i])))
        if nv and corr is not None:
            L = np.linalg.cholesky(corr(float(t[i]) + float(dt[i])/2))
            zi = np.moveaxis(zi, -2, 0)
            zi = np.linalg.solve(L, zi.reshape(zi.shape[0], -1)
                                 ).reshape(zi.shape)
            zi = np.moveaxis(zi, 0, -2)
        w[i] = zi
    return w


@S02.section(900)
def law(c):
    vshape = c.choice([(), (2,), (3,), (4,), (1,), (2, 2), (3, 2), (2, 3),
                       (2, 1, 4), (6,), (5, 1)])
    kind, kw, corr = corr_spec(c, vshape[-1]) if vshape else ('none', {},
                                                             None)
    ts, ds = c.choice([((), ()), ((3,), (3,)), ((), (4,)), ((2, 1), (1, 3)),
                       ((5,), ())])
    t = c.rng.normal(size=ts)*c.choice([1., 5.])
    dt = (c.rng.random(ds) + .01)*c.choice([1., .01, 5.])
    if c.chance(.3):
        kw = {k: gen.partial_domain(c, f) if callable(f) and
              not isinstance(f, process) else f for k, f in kw.items()}
    # unit of time
    u = c.choice([1.]*5 + [1e-20, 1e-10, 1e-3] + (
        [1e6, 1e12] if kind in ('none', 'corr', 'corr1', 'rho', 'rho1')
        else []))
    dt = dt*u
    if c.chance(.4):
        dt = dt*np.where(c.rng.random(ds) < .5, -1, 1)
    nt = int(np.prod(np.broadcast(t, dt).shape, dtype=int))
    nv = int(np.prod(vshape, dtype=int))
    paths = c.choice([1, 2, 7, max(2, 8000//(nt*nv)), max(2, 30000//(nt*nv))])
    rng, rk, s = make_rng(c)
    cls = c.choice([sd.wiener_source, sd.wiener_source,
                    sd.odd_wiener_source])
    half = 1
    if cls is sd.odd_wiener_source:
        half = 2
    dw = cls(paths=paths*half, vshape=vshape, rng=rng, **kw)
    c.sig(kind=kind, vshape=vshape, ts=ts, ds=ds, paths=paths, rk=rk,
          cls=cls.__name__, neg=bool((dt < 0).any()), u=u)
    m = 1 if paths > 100 else 12
    calls = []
    for i in range(m):
        z = dw(t, dt)
        c.ev('source_calls')
        z = z[..., :paths]
        calls.append(whiten(z, t, dt, len(vshape),
                            corr if kind != 'none' else None))
    w = np.stack(calls)
    stats.iid_normal(c, w, 'wiener-law', f'{kind} {vshape} t={ts} dt={ds}')
    if vshape and kind != 'none' and w.size > 5000:
        # no residual correlation between any pair of values
        a = np.moveaxis(w, -2, 0).reshape(vshape[-1], -1)
        for i in range(vshape[-1]):
            for j in range(i):
                c.zmean(a[i]*a[j], 0., 1., 'wiener-correlation',
                        f'{kind} {i} {j}', slack=3./np.sqrt(a.shape[1]))


@S02.section(120)
def degenerate(c):
    """perfect correlations and zero increments"""
    K = c.int(1, 3)
    sgn = np.where(c.rng.random(K) < .5, -1., 1.)
    dw = sd.wiener_source(paths=200, vshape=(2*K,), rho=sgn,
                          rng=make_rng(c)[0])
    c.sig(K=K, s=sgn.tolist())
    t, dt = tdt(c)
    z = dw(t, dt)
    c.close(z[..., K:, :], z[..., :K, :]*sgn[:, None], 'wiener-perfect-corr',
            rtol=1e-6)


@S02.section(60)
def big_sample(c):
    """many increments of a single source, taken along a timeline"""
    vshape = c.choice([(), (2,), (3,)])
    kind, kw, corr = corr_spec(c, vshape[-1]) if vshape else ('none', {},
                                                             None)
    paths = 300
    t = np.cumsum(.01 + c.rng.random(60))
    dw = sd.wiener_source(paths=paths, vshape=vshape, rng=make_rng(c)[0],
                          **kw)
    c.sig(kind=kind, vshape=vshape, neg=c.chance(.5))
    w = np.stack([whiten(dw(a, b - a), a, b - a, len(vshape),
                         corr if kind != 'none' else None)
                  for a, b in zip(t, t[1:])])
    c.ev('source_calls', 59)
    stats.iid_normal(c, w, 'wiener-law', kind)


@S02.section(16)
def large(c):
    """a single large sample is made of iid variates throughout"""
    n = c.choice([100001, 131073, 200003, 262145, 300000])
    vshape, ts, paths = c.choice([
        ((), (), n), ((), (n//7,), 7), ((3,), (), n//3), ((2,), (5,), n//10),
        ((n//2,), (), 2), ((), (2, n//4), 2), ((2, 2), (), n//4)])
    M = vshape[-1] if vshape else 0
    kw, corr = {}, None
    if 1 < M < 5 and c.chance(.5):
        corr = rand_corr(c, M)
        kw['corr'] = corr
    dtype = c.choice([None, None, float, np.float32])
    cls = c.choice([sd.wiener_source, sd.wiener_source, sd.odd_wiener_source,
                    sd.true_wiener_source])
    if ts and cls is sd.true_wiener_source:
        cls = sd.wiener_source
    half = 2 if cls is sd.odd_wiener_source else 1
    if dtype:
        kw['dtype'] = dtype
    dw = cls(paths=paths*half, vshape=vshape, rng=make_rng(c)[0], **kw)
    dt = c.choice([1., .25, -4.])
    c.sig(n=n, vshape=vshape, ts=ts, dtype=dtype, cls=cls.__name__, dt=dt,
          corr=corr is not None)
    t = np.zeros(ts)
    z = np.asarray(dw(t, dt), float)[..., :paths]
    c.ev('source_calls')
    w = whiten(z, t, np.broadcast_to(dt, ts), len(vshape),
               None if corr is None else lambda t: corr)
    f4 = dtype == np.float32
    stats.iid_normal(c, w, 'wiener-law', f'{cls.__name__} {vshape} {ts}',
                     unique=not f4)
    # by parts, in memory order
    f = w.ravel()
    for b in (1000, 4096, 50000):
        for k in (f[:b], f[-b:], f[f.size//2:f.size//2 + b]):
            c.zmean(k, 0., 1., 'wiener-law:part')
            c.zmean(k*k, 1., np.sqrt(2.), 'wiener-law:part')
    p = scipy.stats.kstest(f, 'norm').pvalue
    c.ev('ks_tests')
    c.check(p > 1e-11, 'wiener-law:distribution', f'KS p={p}')
    c.check(np.mean(np.diff(np.sort(f)) == 0) < (.3 if f4 else 1e-12),
            'wiener-law:duplicates')


# =====================================================================
# S03 Poisson and compound Poisson increments
# =====================================================================
S03 = new(
    'S03', 'random Poisson / compound Poisson sources (constant, array, '
    'callable, process intensities; preset, scipy, custom and time-dependent '
    'jump distributions; given dn): laws, and exact conservation of jumps '
    'with degenerate and tagged jump sizes; non-trivial: distinct '
    '(class, intensity, jumps, shapes)',
    required=['statistical_samples', 'jumps_accounted', 'chi2_tests'])


def lam_spec(c, vshape, paths, hi=6.):
    """(kind, lam argument, f(t) -> array broadcast to vshape + (paths,))"""
    k = c.choice(['scalar', 'varr', 'parr', 'fun', 'funarr', 'proc',
                  'procv'] + ['int']*(hi == 6))
    full = vshape + (paths,)
    if k == 'scalar':
        v = float(c.rng.random()*hi)
        return k, v, lambda t: np.full(full, v)
    if k == 'int':
        v = c.int(0, 5)
        return k, v, lambda t: np.full(full, float(v))
    if k == 'varr':
        v = c.rng.random(vshape + (1,))*hi
        if c.chance(.3):
            # no jumps at all for some values
            v = v*(c.rng.random(v.shape) < .6)
        return k, v, lambda t: np.broadcast_to(v, full)
    if k == 'parr':
        v = c.rng.random((paths,))*hi
        if c.chance(.3):
            v = v*(c.rng.random(v.shape) < .8)
        return k, v, lambda t: np.broadcast_to(v, full)
    if k == 'fun':
        a = c.rng.random()*hi/2
        f = lambda t: a*(1 + np.sin(4*t))
        return k, f, lambda t: np.full(full, f(t))
    if k == 'funarr':
        v = c.rng.random(vshape + (1,))*hi/2
        f = lambda t: v*(1 + np.cos(3*t))
        return k, f, lambda t: np.broadcast_to(f(t), full)
    t = np.array([-3., -1, 0, 1, 3])
    if k == 'proc':
        v = c.rng.random(t.size)*hi
        p = process(t, v=np.broadcast_to(
            v.reshape((-1,) + (1,)*len(vshape)), (5,) + vshape))
        return k, p, lambda s: np.full(full, np.interp(s, t, v))
    v = c.rng.random((t.size,) + vshape)*hi
    p = process(t, v=v)
    return k, p, lambda s: np.broadcast_to(np.stack(
        [np.interp(s, t, v[(slice(None),) + i]) for i in np.ndindex(vshape)]
    ).reshape(vshape)[..., None], full)


@S03.section(700)
def poisson_law(c):
    vshape = c.choice([(), (), (2,), (3,), (2, 2)])
    nv = int(np.prod(vshape, dtype=int))
    ts, ds = c.choice([((), ()), ((3,), (3,)), ((), (2,)), ((2, 1), (1, 2))])
    t = c.rng.normal(size=ts)
    dt = (c.rng.random(ds) + .05)*c.choice([1., .2, 3.])
    if c.chance(.4):
        dt = dt*np.where(c.rng.random(ds) < .5, -1, 1)
    paths = c.choice([5, 4000, 12000])
    # unit of time
    unit = c.choice([1.]*5 + [1e-15, 1e-8, 1e5])
    dt = dt*unit
    k, lam, f = lam_spec(c, vshape, paths, 6./unit)
    if k.startswith('fun') and c.chance(.3):
        lam = gen.partial_domain(c, lam)
    dn = sd.poisson_source(paths=paths, vshape=vshape, lam=lam,
                           rng=make_rng(c)[0],
                           **c.choice([{}, {}, dict(dtype=float)]))
    c.sig(k=k, vshape=vshape, ts=ts, ds=ds, paths=paths,
          neg=bool((dt < 0).any()), unit=unit)
    z = dn(t, dt)
    c.ev('source_calls')
    tt, dd = np.broadcast_arrays(t, dt)
    for i in np.ndindex(tt.shape):
        m = f(tt[i] + dd[i]/2)*abs(dd[i])
        zi = z[i]*np.sign(dd[i])
        c.check((zi >= 0).all() and (zi == np.rint(zi)).all(),
                'poisson-sign', f'dt={dd[i]}')
        if paths < 100:
            continue
        for j in np.ndindex(vshape):
            mj = m[j]
            if np.ptp(mj) == 0:
                stats.poisson_law(c, zi[j], float(mj[0]), 'poisson-law',
                                  f'{k} t={tt[i]} dt={dd[i]}')
            else:
                # path dependent intensity: standardized counts
                ok = mj > .05
                u = (zi[j] - mj)[ok]/np.sqrt(mj[ok])
                c.zmean(u, 0, 1, 'poisson-law', k, slack=20./ok.sum())
                c.zmean(u**2, 1, np.sqrt(2 + np.mean(1/mj[ok])),
                        'poisson-law', k, slack=10/np.sqrt(ok.sum()))
                # counts follow the intensity of their own path
                w = mj - mj.mean()
                c.zmean((zi[j] - mj)*w, 0, np.sqrt(np.mean(mj*w*w)),
                        'poisson-paths', k, slack=20./paths)
        if paths > 1000:
            flat = (zi - m).reshape(nv, paths)
            for a in range(nv):
                for b in range(a):
                    stats.uncorrelated(c, flat[a], flat[b],
                                       'poisson-independence', k)
    if tt.size > 1 and paths > 1000:
        a = z.reshape((tt.size, -1))
        mm = np.stack([f(tt[i] + dd[i]/2)*dd[i]
                       for i in np.ndindex(tt.shape)]).reshape(a.shape)
        a = a - mm
        stats.uncorrelated(c, a[0], a[-1], 'poisson-independence', k)


@S03.section(600)
def jumps_exact(c):
    """degenerate jump sizes g(t): increments are dn*g(t + dt/2)"""
    vshape, paths = gen.dims(c), c.choice([1, 2, 5, 30])
    mode = c.choice(['default', 'instance', 'stub', 'stub', 'stub', 'class'])
    kw, stub = {}, None
    if mode == 'stub':
        stub = Stub(c.sub_rng(5), paths, vshape,
                    c.choice([2, 4, 9, 9, 140, 300, 700, 3000]))
        # the source protocol requires paths and vshape only
        if c.chance(.5):
            del stub.lam
        if c.chance(.5):
            del stub.dtype
        kw['dn'] = stub
        kw['lam'] = 50.     # overridden
    elif mode == 'instance':
        kw['dn'] = sd.poisson_source(paths=paths, vshape=vshape, lam=2.,
                                     rng=make_rng(c, 3)[0])
    elif mode == 'class':
        kw['dn'], kw['lam'] = sd.poisson_source, 2.
    else:
        kw['lam'] = lam_spec(c, vshape, paths)[1]
    tdep = c.chance(.6)
    g = (lambda t: 1.5 + np.sin(5*t)) if tdep else (lambda t: .75)
    y = (lambda t: ConstY(g(t))) if tdep else ConstY(.75)
    rng, rk, s = make_rng(c)
    dj = sd.cpoisson_source(paths=paths, vshape=vshape, y=y, rng=rng, **kw)
    t, dt = tdt(c)
    c.sig(mode=mode, tdep=tdep, vshape=vshape, paths=paths,
          ts=np.shape(t), ds=np.shape(dt))
    for _ in range(2):
        z = dj(t, dt)
        c.ev('source_calls')
        tt, dd = np.broadcast_arrays(t, dt)
        if stub is not None:
            c.check(len(stub.calls) >= 1, 'dn-unused')
            c.equal(dj.dn_value, stub.calls[-1][2], 'dn-value')
        dn = np.asarray(dj.dn_value)
        c.check(dn.shape == z.shape, 'dn-value', 'shape')
        e = np.empty(z.shape)
        for i in np.ndindex(tt.shape):
            e[i] = dn[i]*g(tt[i] + dd[i]/2)
            c.check((dn[i]*np.sign(dd[i]) >= 0).all(), 'dn-sign')
        c.close(z, e, 'jumps-sum', mode, rtol=1e-12)
        n = int(np.abs(dn).sum())
        c.ev('jumps_accounted', n)
        c.check(sum(np.asarray(v).size for v in dj.y_value) == n,
                'y-value-count')


@S03.section(500)
def jumps_tagged(c):
    """each jump is used exactly once, in an element with a jump"""
    vshape, paths = c.choice([(), (2,), (2, 2)]), c.choice([1, 2, 4, 8])
    stub = Stub(c.sub_rng(5), paths, vshape, 3 if paths > 2 else 5)
    y = TagY()
    dj = sd.cpoisson_source(paths=paths, vshape=vshape, dn=stub,
                            y=y if c.chance(.5) else (lambda t: y),
                            rng=make_rng(c)[0])
    m = 3 if c.chance(.5) else 1
    t = c.rng.normal(size=(m,))
    dt = np.where(c.rng.random(m) < .5, -1, 1)*.5
    c.sig(vshape=vshape, paths=paths, m=m, high=stub.high)
    try:
        z = dj(t, dt)
    except Inconclusive:
        c.signature = None
        return
    dn = stub.calls[-1][2]
    seen = 0
    for i in np.ndindex(z.shape):
        s = float(np.sign(dt[i[0]]))
        tags = int(z[i]*s)
        c.check(tags == z[i]*s and tags >= 0, 'jump-sign')
        c.check(bin(tags).count('1') == abs(int(dn[i])), 'jump-count',
                f'{z[i]} for dn={dn[i]}')
        c.check(tags & seen == 0, 'jump-used-twice')
        seen |= tags
    c.check(bin(seen).count('1') == int(np.abs(dn).sum()), 'jump-lost')
    used = np.sort(np.concatenate([np.ravel(v) for v in dj.y_value]
                                  or [np.zeros(0)]))
    c.equal(used, [2.**k for k in range(60) if seen >> k & 1],
            'y-value-content')
    c.ev('jumps_accounted', bin(seen).count('1'))


def y_spec(c):
    """(kind, y argument, f(t) -> (cdf, mean, second moment))"""
    k = c.choice(['none', 'norm', 'unif', 'exp', 'expneg', 'dexp', 'norm_t',
                  'unif_t', 'exp_t', 'dexp_t', 'gamma', 'rvmap', 'rvmap_t'])
    a, b, pa = (float(v) for v in c.rng.random(3)*.8 + .1)
    S = scipy.stats

    def dexp(a, b, pa):
        return (lambda x: np.where(x < 0, (1-pa)*np.exp(np.minimum(x, 0)/b),
                                   1 - pa*np.exp(-np.maximum(x, 0)/a)),
                pa*a - (1-pa)*b, 2*pa*a*a + 2*(1-pa)*b*b)

    def fz(d):
        return d.cdf, d.mean(), d.var() + d.mean()**2
    g = lambda t: 1.2 + np.sin(3*t)
    if k == 'none':
        return k, None, lambda t: fz(S.uniform())
    if k == 'norm':
        return k, sd.norm_rv(a, b), lambda t: fz(S.norm(a, b))
    if k == 'unif':
        return k, sd.uniform_rv(-a, b), lambda t: fz(S.uniform(-a, a+b))
    if k == 'exp':
        return k, sd.exp_rv(a), lambda t: fz(S.expon(scale=a))
    if k == 'expneg':
        return k, sd.exp_rv(-a), lambda t: (
            lambda x: np.exp(np.minimum(x, 0)/a), -a, 2*a*a)
    if k == 'dexp':
        return k, sd.double_exp_rv(a, b, pa), lambda t: dexp(a, b, pa)
    if k == 'norm_t':
        return k, sd.norm_rv(g, b), lambda t: fz(S.norm(g(t), b))
    if k == 'unif_t':
        return k, sd.uniform_rv(-a, g), lambda t: fz(S.uniform(-a, a+g(t)))
    if k == 'exp_t':
        return k, sd.exp_rv(g), lambda t: fz(S.expon(scale=g(t)))
    if k == 'dexp_t':
        return k, sd.double_exp_rv(g, b, lambda t: .5 + .3*np.cos(t)), \
            lambda t: dexp(g(t), b, .5 + .3*np.cos(t))
    if k == 'gamma':
        return k, S.gamma(2.5), lambda t: fz(S.gamma(2.5))
    if k == 'rvmap':
        return k, sd.rvmap(lambda y: 2*y - 1, sd.norm_rv(a, b)), \
            lambda t: fz(S.norm(2*a - 1, 2*b))
    return k, sd.rvmap(lambda t, y: y*g(t), sd.norm_rv(a, b)), \
        lambda t: fz(S.norm(a*g(t), b*g(t)))


@S03.section(500)
def cpoisson_law(c):
    vshape = c.choice([(), (), (2,)])
    paths = 6000
    ts, ds = c.choice([((), ()), ((2,), (2,))])
    t = c.rng.normal(size=ts)
    dt = (c.rng.random(ds) + .1)*c.choice([1., 2.])
    if c.chance(.4):
        dt = dt*np.where(c.rng.random(ds) < .5, -1, 1)
    lk, lam, lf = lam_spec(c, vshape, paths, hi=3.)
    yk, y, yf = y_spec(c)
    cls = c.choice([sd.cpoisson_source, sd.cpoisson_source,
                    sd.even_cpoisson_source])
    if cls is sd.even_cpoisson_source and lk == 'parr':
        lk, lam, lf = 'scalar', 1.3, lambda t: np.full(vshape + (paths,), 1.3)
    half = 2 if cls is sd.even_cpoisson_source else 1
    dj = cls(paths=paths*half, vshape=vshape, lam=lam, y=y,
             rng=make_rng(c)[0])
    c.sig(lk=lk, yk=yk, vshape=vshape, ts=ts, neg=bool((dt < 0).any()),
          cls=cls.__name__)
    z = dj(t, dt)[..., :paths]
    c.ev('source_calls')
    tt, dd = np.broadcast_arrays(t, dt)
    for i in np.ndindex(tt.shape):
        cdf, m1, m2 = yf(tt[i] + dd[i]/2)
        L = lf(tt[i] + dd[i]/2)*abs(dd[i])
        zi = z[i]*np.sign(dd[i])
        for j in np.ndindex(vshape):
            Lj, x = L[j], zi[j]
            # exact mean and variance of each element
            c.zmean(x - Lj*m1, 0., np.sqrt(np.mean(Lj)*m2),
                    'cpoisson-mean', f'{yk} {lk}',
                    slack=20*np.sqrt(m2)/paths)
            if half == 1:
                n = np.abs(np.asarray(dj.dn_value)[i][j])
                one = x[n == 1]
                c.check((x[n == 0] == 0).all(), 'cpoisson-no-jump')
                if one.size > 50:
                    p = scipy.stats.kstest(one, cdf).pvalue
                    c.ev('ks_tests')
                    c.check(p > 1e-11, 'jump-law', f'{yk} p={p} '
                            f't={tt[i]} dt={dd[i]}')
                two = x[n == 2]
                if two.size > 200:
                    c.zmean(two, 2*m1, np.sqrt(2*max(m2 - m1*m1, 1e-12)),
                            'jump-pairs', yk,
                            slack=10*np.sqrt(m2)/two.size)
                    v2 = 2*(m2 - m1*m1)
                    d2 = (two - 2*m1)**2
                    c.zmean(d2, v2, 1.3*d2.std() + .05*v2, 'jump-pairs-var',
                            yk)
                stats.poisson_law(c, n, float(Lj[0]), 'jump-number', lk) \
                    if np.ptp(Lj) == 0 else None
    if half == 1:
        yy = [np.ravel(v) for v in dj.y_value]
        yy = np.concatenate(yy) if yy else np.zeros(0)
        c.ev('jumps_accounted', yy.size)
        if yk not in ('none',) and yy.size:
            c.check(np.unique(yy).size == yy.size, 'jump-duplicates', yk)
        c.close(np.sum(z*np.sign(dd).reshape(
            dd.shape + (1,)*(len(vshape) + 1))), yy.sum(), 'jump-conservation',
            rtol=1e-9, atol=1e-9*np.abs(yy).sum())


@S03.section(60)
def many_jumps(c):
    """many jumps in a step: each of them has the stated law"""
    vshape, paths = c.choice([(), (3,)]), c.choice([2, 5])
    lam = float(c.choice([60., 150., 400., 1100.]))
    yk, y, yf = y_spec(c)
    rng = make_rng(c)[0]
    stub = c.chance(.5)
    kw = dict(dn=Stub(c.sub_rng(5), paths, vshape, int(2*lam))) if stub \
        else dict(lam=lam)
    dj = sd.cpoisson_source(paths=paths, vshape=vshape, y=y, rng=rng, **kw)
    t, dt = float(c.rng.normal()), c.choice([1., 1., -1.])
    c.sig(vshape=vshape, paths=paths, lam=lam, yk=yk, stub=stub, dt=dt)
    z = dj(t, dt)
    n = np.abs(np.asarray(dj.dn_value))
    cdf, m1, m2 = yf(t + dt/2)
    all_y = np.concatenate([np.ravel(v) for v in dj.y_value])
    c.check(all_y.size == n.sum(), 'jump-lost', f'{all_y.size} {n.sum()}')
    p = scipy.stats.kstest(all_y, cdf).pvalue
    c.ev('ks_tests')
    c.ev('jumps_accounted', all_y.size)
    c.check(p > 1e-11, 'jump-law', f'{yk} p={p} many jumps')
    # the largest groups
    for v in dj.y_value[-3:]:
        v = np.ravel(v)
        if v.size > 50:
            p = scipy.stats.kstest(v, cdf).pvalue
            c.ev('ks_tests')
            c.check(p > 1e-11, 'jump-law', f'{yk} p={p} many jumps')
    sd_ = np.sqrt(max(m2 - m1*m1, 1e-12))
    w = (z*dt - n*m1)/np.sqrt(np.maximum(n, 1))
    c.check(np.abs(w).max() < 12*sd_, 'jump-sums', f'{yk} {w}')
    c.close(np.sum(z*dt), all_y.sum(), 'jump-conservation', rtol=1e-9,
            atol=1e-9*np.abs(all_y).sum())


@S03.section(4)
def many_events(c):
    """large means: counts keep the asymmetry of the Poisson law"""
    mu = float(c.choice([200., 720., 1100., 2300.]))
    n = c.choice([2000000, 4000000])
    cls = c.choice([sd.poisson_source, sd.true_poisson_source])
    vshape, paths = c.choice([((), n), ((2,), n//2)])
    dt = c.choice([1., .25, -1.])
    c.sig(mu=mu, n=n, cls=cls.__name__, vshape=vshape, dt=dt)
    dn = cls(paths=paths, vshape=vshape, lam=mu/abs(dt), rng=make_rng(c)[0])
    d = (np.asarray(dn(0., dt))*np.sign(dt)).ravel() - mu
    c.ev('source_calls')
    c.zmean(d, 0, np.sqrt(mu), 'poisson-law:mean', '', slack=10/n)
    c.zmean(d*d, mu, np.sqrt(mu + 2*mu*mu), 'poisson-law:var')
    # sixth central moment and third one of the law
    m6 = 15*mu**3 + 25*mu**2 + mu
    c.zmean(d**3, mu, np.sqrt(m6 - mu*mu), 'poisson-law:asymmetry',
            f'mean {mu}')


@S03.section(16)
def large(c):
    """a single large sample"""
    n = c.choice([65537, 100001, 131073, 200003])
    vshape, ts, paths = c.choice([
        ((), (), n), ((), (n//7,), 7), ((3,), (), n//3), ((2,), (5,), n//10),
        ((n//2,), (), 2)])
    lam = c.choice([.7, 3.])
    dt = c.choice([1., -.5])
    k = c.choice(['poisson', 'ones', 'norm'])
    c.sig(n=n, vshape=vshape, ts=ts, k=k, lam=lam, dt=dt)
    kw = dict(paths=paths, vshape=vshape, rng=make_rng(c)[0])
    t = np.zeros(ts)
    if k == 'poisson':
        z = sd.poisson_source(lam=lam, **kw)(t, dt)*np.sign(dt)
        c.ev('source_calls')
        f = z.ravel()
        m = lam*abs(dt)
        for g in (f, f[:5000], f[-5000:], f[f.size//2:][:5000]):
            stats.poisson_law(c, g, m, 'poisson-law')
        stats.uncorrelated(c, f[1:], f[:-1], 'poisson-independence')
        return

    class DN:
        def __call__(self, t, dt):
            return np.ones(np.shape(t) + vshape + (paths,), int) \
                * int(np.sign(np.ravel(dt)[0]))
    dn = DN()
    dn.paths, dn.vshape = paths, vshape
    if k == 'norm':
        dn = sd.poisson_source(lam=lam, paths=paths, vshape=vshape,
                               rng=np.random.default_rng(c.index))
    dj = sd.cpoisson_source(dn=dn, y=sd.norm_rv(0., 1.), **kw)
    z = dj(t, dt)
    c.ev('source_calls')
    m = np.abs(np.asarray(dj.dn_value))
    c.check((z[m == 0] == 0).all(), 'cpoisson-no-jump')
    f = z[m > 0]/np.sqrt(m[m > 0])
    c.ev('jumps_accounted', m.sum())
    for g in (f, f[:3000], f[-3000:]):
        stats.iid_normal(c, g, 'jump-law', f'{k} {vshape} {ts}')


@S03.section(60)
def array_jump_params(c):
    """jump parameters broadcastable to vshape + (paths,)"""
    paths = 5
    vshape = c.choice([(), (3,)])
    a = c.rng.random(vshape + (c.choice([1, paths]),)) + .5 if vshape \
        else c.rng.random((paths,)) + .5
    stub = Stub(c.sub_rng(5), paths, vshape, 4)
    k = c.choice(['norm', 'exp', 'unif'])
    y = {'norm': lambda: sd.norm_rv(a*1000, 1e-9),
         'exp': lambda: sd.exp_rv(a*1000),
         'unif': lambda: sd.uniform_rv(a*1000, a*1000 + 1e-9)}[k]()
    dj = sd.cpoisson_source(paths=paths, vshape=vshape, dn=stub, y=y,
                            rng=make_rng(c)[0])
    c.sig(k=k, vshape=vshape, a=a.shape)
    try:
        z = dj(0., 1.)
    except ValueError as e:
        c.fail('array-jump-params', f'{type(e).__name__}: {e}')
    dn = stub.calls[-1][2]
    if k != 'exp':
        if not np.allclose(z, dn*a*1000, rtol=1e-6):
            c.fail('array-jump-params', 'jumps drawn with the parameters of '
                   'other elements')


# =====================================================================
# S04 antithetic sources
# =====================================================================
S04 = new(
    'S04', 'random antithetic sources, shapes and time arguments, repeated '
    'calls; exact relations between leading and trailing paths, alone and '
    'within integrated processes; non-trivial: distinct (class, shapes)',
    required=['pairs_compared'])


@S04.section(1500)
def pairs(c):
    name = c.choice(SOURCES[3:6])
    vshape = gen.dims(c)
    K = c.choice([1, 2, 3, 10, 51])
    kw = source_args(c, name, vshape, 2*K)
    if name != 'odd_wiener_source' and c.chance(.7):
        kw['lam'] = 5.
    if c.chance(.3):
        kw['dtype'] = c.choice([np.float32, float])
    rng, rk, s = make_rng(c)
    src = getattr(sd, name)(paths=2*K, vshape=vshape, rng=rng, **kw)
    c.sig(name=name, vshape=vshape, K=K, kw=sorted(kw))
    c.check(src.paths == 2*K and tuple(src.vshape) == vshape,
            'antithetic-attributes')
    prev = None
    for _ in range(3):
        t, dt = tdt(c)
        z = src(t, dt)
        a, b = z[..., :K], z[..., K:]
        c.equal(b, -a if name.startswith('odd') else a, 'antithetic', name)
        c.ev('pairs_compared', a.size)
        if name.startswith('odd') and a.size:
            # leading paths are distinct, and the mean is exactly zero
            if np.all(np.asarray(dt) != 0) and a.dtype == float:
                u = np.unique(a)
                c.check(u.size == a.size, 'antithetic-duplicates')
            # (any antithetic pair adds up to exactly zero)
            c.equal(a + b, np.zeros(a.shape, a.dtype), 'antithetic-mean')
            c.close(z.sum(axis=-1), np.zeros(z.shape[:-1]),
                    'antithetic-mean', atol=float(np.abs(z).max())*2*K*4
                    * np.finfo(z.dtype).eps)


@S04.section(150)
def leading_law(c):
    name = c.choice(SOURCES[3:6])
    K = 4000
    src = {
        'odd_wiener_source': lambda **k: sd.odd_wiener_source(**k),
        'even_poisson_source': lambda **k: sd.even_poisson_source(
            lam=1.7, **k),
        'even_cpoisson_source': lambda **k: sd.even_cpoisson_source(
            lam=1.7, y=sd.norm_rv(.3, .5), **k)}[name](
        paths=2*K, vshape=(2,), rng=make_rng(c)[0])
    dt = float(c.rng.random() + .2)*c.choice([1, -1])
    z = src(.3, dt)*np.sign(dt)
    a = z[..., :K]
    c.sig(name=name, neg=dt < 0, dt=round(dt, 1))
    c.ev('pairs_compared', a.size)
    ad = abs(dt)
    if name.startswith('odd'):
        stats.iid_normal(c, a/np.sqrt(ad), 'antithetic-law', name)
    elif '_poisson' in name:
        for i in range(2):
            stats.poisson_law(c, a[i], 1.7*ad, 'antithetic-law')
    else:
        c.zmean(a, 1.7*ad*.3, np.sqrt(1.7*ad*(.25 + .09)),
                'antithetic-law')
    stats.uncorrelated(c, a[0], a[1], 'antithetic-independence')


@S04.section(60)
def large(c):
    name = c.choice(SOURCES[3:6])
    K = c.choice([4097, 20011, 65537])
    vshape = c.choice([(), (2,), (1, 2)])
    kw = {} if name.startswith('odd') else dict(lam=2.)
    src = getattr(sd, name)(paths=2*K, vshape=vshape, rng=make_rng(c)[0],
                            **kw)
    ts = c.choice([(), (2,)])
    c.sig(name=name, K=K, vshape=vshape, ts=ts)
    z = src(np.zeros(ts), .5)
    a, b = z[..., :K], z[..., K:]
    c.equal(b, -a if name.startswith('odd') else a, 'antithetic', name)
    c.ev('pairs_compared', a.size)
    if name.startswith('odd'):
        stats.iid_normal(c, a/np.sqrt(.5), 'antithetic-law', name)
    elif '_poisson' in name:
        stats.poisson_law(c, a, 1., 'antithetic-law', name)


@S04.section(60)
def odd_paths(c):
    name = c.choice(SOURCES[3:6])
    paths = c.choice([1, 3, 5, 101, np.int64(7), 2**16 + 1])
    vshape = c.choice([(), (2,), (1, 2)])
    c.sig(name=name, paths=int(paths), vshape=vshape)
    c.raises(ValueError, lambda: getattr(sd, name)(
        paths=paths, vshape=vshape, rng=make_rng(c)[0]),
        'odd-paths-accepted', name)
    # also if set up by a process
    cls, key = {'odd_wiener_source': (sd.wiener_process, 'dw'),
                'even_cpoisson_source': (sd.jumpdiff_process, 'dj'),
                'even_poisson_source': (sd.jumpdiff_process, 'dn')}[name]
    c.raises(ValueError, lambda: cls(paths=paths, vshape=vshape,
                                     **{key: getattr(sd, name)}),
             'odd-paths-accepted', name)
    c.ev('pairs_compared')


@S04.section(150)
def in_processes(c):
    """antithetic paths of an integrated Brownian motion mirror each other
    about the deterministic solution"""
    K = c.choice([1, 4, 15])
    vshape = gen.dims(c)
    t = gen.timeline(c, c.int(2, 12), 'rand')
    x0, mu, sg = (float(v) for v in c.rng.normal(size=3))
    sg = abs(sg) + .1
    dw = sd.odd_wiener_source(paths=2*K, vshape=vshape, rng=make_rng(c)[0])
    x = sd.wiener_process(paths=2*K, vshape=vshape, x0=x0, mu=mu, sigma=sg,
                          dw=dw, steps=c.choice([None, 7]),
                          i0=c.choice([0, -1]))
    i0 = x.i0
    c.sig(K=K, vshape=vshape, n=t.size, i0=i0)
    x = x(t)
    det = x0 + mu*(t - t[i0]).reshape((-1,) + (1,)*(len(vshape) + 1))
    c.close(x.x[..., :K] - det, det - x.x[..., K:], 'antithetic-process',
            rtol=1e-9, atol=1e-9*float(np.abs(x.x).max()))
    c.ev('pairs_compared', x.x.size//2)


# =====================================================================
# S05 sources with memory: history consistency
# =====================================================================
S05 = new(
    'S05', 'random query histories (scalars, arrays, increments, sub-indexed '
    'views, inside/outside/before t0, repeated) against a source with memory; '
    'an online monitor keeps the time->value map; jump sizes are tagged so '
    'that each jump is accounted for; non-trivial: distinct histories',
    required=['queries', 'revisits', 'inside_queries', 'jumps_accounted',
              'within_rtol', 'faults'])


class History:
    """The map of realized values, as seen by the user."""

    def __init__(self, c, name):
        self.c, self.name, self.map = c, name, {}

    def see(self, t, value):
        c = self.c
        c.ev('queries')
        t = float(t)
        if t in self.map:
            c.ev('revisits')
            c.equal(value, self.map[t], 'history-changed',
                    f'{self.name} at t={t}')
        else:
            if self.map and min(self.map) < t < max(self.map):
                c.ev('inside_queries')
            self.map[t] = np.array(value)


def time_pool(c, t0):
    n = c.int(3, 14)
    if c.chance(.12):
        # very close points
        return t0 + np.append(c.rng.integers(-40, 40, size=n), 0) \
            * 2.**-c.choice([20, 30, 40]), t0*16 == int(t0*16)
    if c.chance(.5):
        # dyadic numbers: t + dt is exact
        t = t0 + c.rng.integers(-6*16, 6*16, size=n)/16.
        exact = True
    else:
        t = t0 + c.rng.normal(size=n)*c.choice([.1, 1., 5.])
        exact = False
    if c.chance(.4):
        t = t0 + np.abs(t - t0)
    if c.chance(.15):
        t = t0 - np.abs(t - t0)
    return np.concatenate((t, [t0])), exact and t0*16 == int(t0*16)


def make_true(c, name, vshape, paths, t0, small=False):
    kw = dict(t0=t0)
    z0 = 0
    if c.chance(.4):
        z0 = c.choice([3, 7]) if '_poisson' in name else \
            (float(c.rng.integers(-8, 8))/4 if 'wiener' in name or not small
             else 0)
        if c.chance(.3) and vshape and 'wiener' in name:
            z0 = c.rng.integers(-8, 8, size=vshape + (1,))/4.
            if c.chance(.5):
                z0 = z0 + np.zeros(vshape + (paths,))
        kw['z0'] = z0
    if 'wiener' in name:
        a = source_args(c, 'wiener', vshape, paths)
        if 'rho' in a and callable(a['rho']):
            pass
        kw.update(a)
    else:
        kw['lam'] = float(c.rng.random()*(.5 if small else 4)) + .05
    return kw, np.asarray(z0)


DT_SHAPES = [((), ()), ((2,), (2,)), ((2, 2), (2, 2)), ((), (2,)),
             ((2,), ()), ((2, 1), (1, 2)), ((1,), (3,))]


def dt_pair(c, pool, hist, sh, sd_):
    """times, and increments leading to other times (mostly of the pool)"""
    t = np.asarray(c.rng.choice(pool, size=sh))
    s = c.rng.choice(pool, size=sd_)
    dt = np.asarray(s - (t if sh == sd_ or sh == () else t.flat[0]))
    # times so close that they almost coincide are left to `tolerance`:
    # within rtol of two distinct realized times, either may be returned
    s = (t + dt).ravel()
    known = np.concatenate((pool, list(hist.map), s))
    d = np.abs(s[:, None] - known)
    if ((d > 0) & (d < 1e-14*np.abs(known))).any():
        dt = 0*dt
    return t, dt


def query(c, src, pool, exact, hist, vshape, paths):
    """one random query, seen by the history monitor"""
    k = c.choice(['scalar', 'scalar', 'array', 'dt', 'dtarr', 'order', 'sub'])
    pick = lambda sh: c.rng.choice(pool, size=sh)
    if k == 'scalar':
        t = float(pick(()))
        z = src(t if c.chance(.7) else np.asarray(t))
        c.check(z.shape == vshape + (paths,), 'true-shape')
        hist.see(t, z)
    elif k in ('array', 'order'):
        sh = c.choice([(2,), (3,), (2, 2), (1,)])
        t = pick(sh)
        if k == 'order':
            t = np.sort(t.ravel())[::c.choice([1, -1])].reshape(sh)
        z = src(t)
        c.check(z.shape == sh + vshape + (paths,), 'true-shape')
        for i in np.ndindex(sh):
            hist.see(t[i], z[i])
    elif k in ('dt', 'dtarr'):
        sh, sd_ = ((), ()) if k == 'dt' else c.choice(DT_SHAPES)
        t, dt = dt_pair(c, pool, hist, sh, sd_)
        s = t + dt
        sh = s.shape
        z = src(t, dt)
        c.check(z.shape == sh + vshape + (paths,), 'true-shape')
        z1, z2 = src(t), src(s)
        for i in np.ndindex(t.shape):
            hist.see(t[i], z1[i])
        for i in np.ndindex(sh):
            hist.see(s[i], z2[i])
        z1 = np.broadcast_to(z1.reshape(
            (1,)*(len(sh) - t.ndim) + z1.shape), z2.shape)
        c.close(z, z2 - z1, 'true-increment', rtol=1e-12,
                atol=1e-12*float(np.abs(z2).max() + np.abs(z1).max()))
        c.ev('queries')
    elif k == 'sub' and vshape:
        m = vshape[0]
        i = c.choice([0, -1, slice(0, 1), slice(None, None, 2),
                      slice(None), c.rng.random(m) < 2, [0, m - 1]]
                     + ([(0, 0), (slice(None), 0), (0, slice(None))]
                        if len(vshape) > 1 else []))
        sub = src[i]
        probe = np.empty(vshape)[i]
        c.check(tuple(sub.vshape) == probe.shape and sub.paths == paths,
                'sub-attributes', f'{sub.vshape} vs {probe.shape}')
        sh = c.choice([(), (3,), (2, 2)])
        t = np.asarray(pick(sh))
        z = sub(t)
        c.check(z.shape == sh + probe.shape + (paths,), 'sub-shape',
                f'{z.shape} for t {sh}, index {i}')
        full = src(t)
        for j in np.ndindex(sh):
            hist.see(t[j], full[j])
            c.equal(z[j], full[j][i], 'sub-memory')
        t, dt = dt_pair(c, pool, hist, *c.choice(DT_SHAPES))
        s = t + dt
        zz = sub(t, dt)
        f2 = src(t, dt)
        fs = src(s)
        c.check(zz.shape == s.shape + probe.shape + (paths,), 'sub-shape',
                f'{zz.shape} for t {t.shape}, dt {dt.shape}, index {i}')
        ft = src(t)
        for j in np.ndindex(t.shape):
            hist.see(t[j], ft[j])
        for j in np.ndindex(s.shape):
            hist.see(s[j], fs[j])
            c.equal(zz[j], f2[j][i], 'sub-increment')
        c.equal(sub.t, src.t, 'sub-times')
        c.check(sub.size == src.size, 'sub-size')
        c.ev('sub_queries')


@S05.section(900)
def histories(c):
    name = c.choice(SOURCES[6:])
    vshape, paths = gen.dims(c), c.choice([1, 2, 5, 17])
    t0 = c.choice([0., 1., -2.5, 10., .1, -1/3, np.pi])
    kw, z0 = make_true(c, name, vshape, paths, t0)
    rng, gens = make_rng(c)[0], []
    if c.chance(.4):
        rng = Interrupted(np.random.PCG64(c.index))
        gens = [rng]
    src = getattr(sd, name)(paths=paths, vshape=vshape, rng=rng, **kw)
    pool, exact = time_pool(c, t0)
    hist = History(c, name)
    full = vshape + (paths,)
    if isinstance(kw.get('z0'), np.ndarray):
        # the initial value given belongs to the user
        z0 = z0.copy()
        if c.chance(.6):
            kw['z0'][...] = 77.
    if c.chance(.5):
        hist.see(t0, src(t0))
        c.equal(src(t0), np.broadcast_to(z0, full), 'initial-value')
    for _ in range(c.int(4, 20)):
        with_faults(c, gens, .3, lambda: query(c, src, pool, exact, hist,
                                               vshape, paths))
        if c.chance(.4):
            # results belong to the user, who may alter them
            t = c.rng.choice(pool, size=c.choice([(), (), (2,), (1, 2)]))
            t = float(t) if t.shape == () and c.chance(.5) else t
            dt = c.choice([None, None, 0., 1.])
            z = src(t, dt) if not (vshape and c.chance(.3)) else \
                src[c.choice([0, -1, slice(None)])](t, dt)
            for i in np.ndindex(np.shape(t)):
                s = np.asarray(t)[i]
                hist.see(s, src(float(s)))
                if dt:
                    hist.see(s + dt, src(float(s + dt)))
            if z.flags.writeable:
                c.mutated(z)
                z[...] = -55
            c.ev('results_altered')
    c.sig(name=name, vshape=vshape, paths=paths, exact=exact,
          n=len(hist.map), kw=sorted(kw), i=c.index % 97)
    # final replay of the whole history, in random order
    ts = np.array(sorted(hist.map))
    for t in c.rng.permutation(ts):
        hist.see(t, src(float(t)))
    if ts.size:
        z = src(ts)
        for i, t in enumerate(ts):
            hist.see(t, z[i])
    c.equal(src(t0), np.broadcast_to(z0, full), 'initial-value')
    # bookkeeping
    st = src.t
    c.check((np.diff(st) > 0).all() and t0 in st, 'stored-times', f'{st}')
    c.check(set(st) <= set(ts) | {t0} or not exact or gens, 'stored-times')
    if 'wiener' in name:
        if exact and not gens:
            c.equal(st, np.unique(np.append(ts, t0)), 'stored-times')
        c.check(src.size == st.size*int(np.prod(full)), 'stored-size')
    elif '_poisson' in name:
        c.check(src.size == st.size*int(np.prod(full)), 'stored-size')
        z = np.stack([hist.map[float(t)] for t in ts]) if ts.size else None
        if ts.size:
            d = np.diff(z, axis=0)
            c.check((d >= 0).all(), 'poisson-monotone')
    st[...] = -99.
    c.check(t0 in src.t, 'stored-times-not-a-copy')


@S05.section(3)
def long(c):
    """thousands of realized times"""
    name = c.choice(SOURCES[6:])
    vshape, paths = c.choice([(), (2,)]), c.choice([1, 3])
    t0 = c.choice([0., -1.])
    n = c.choice([1100, 2100, 4200])
    kw = {} if 'wiener' in name else dict(lam=c.choice([.1, 3.]))
    src = getattr(sd, name)(paths=paths, vshape=vshape, t0=t0,
                            rng=make_rng(c)[0], **kw)
    mode = c.choice(['forward', 'backward', 'random', 'inside'])
    c.sig(name=name, vshape=vshape, paths=paths, n=n, mode=mode)
    t = t0 + np.arange(1, n + 1)/16.
    if mode == 'backward':
        t = 2*t0 - t
    elif mode == 'random':
        t = c.rng.permutation(t)
    elif mode == 'inside':
        src(t.max() + 1)
    hist = History(c, name)
    early = src(t[:5])
    for i in range(5):
        hist.see(t[i], early[i])
    for s in t[5:-50]:
        hist.see(s, src(s))
    z = src(t[-50:])
    for s, v in zip(t[-50:], z):
        hist.see(s, v)
    c.equal(src(t0), np.zeros(vshape + (paths,)), 'initial-value')
    for s in c.rng.permutation(t)[:300]:
        hist.see(s, src(s))
    z = src(t)
    for s, v in zip(t, z):
        hist.see(s, v)
    # inserted times leave the others as they are
    u = t[:40] + 1/32.
    v = src(u)
    c.equal(src(t), z, 'history-changed', name)
    c.equal(src(u), v, 'history-changed', name)
    c.ev('revisits')


@S05.section(900)
def jumps(c):
    """jumps of a compound Poisson source with memory are never lost,
    duplicated or moved across realized points"""
    vshape, paths = c.choice([(), (), (2,), (2, 2)]), c.choice([1, 2, 3])
    t0 = c.choice([0., 1., .1])
    kind = c.choice(['tag', 'tag', 'one', 'zero', 'pm'])
    tag = TagY()
    rng, gens = make_rng(c)[0], []
    if c.chance(.4):
        rng = Interrupted(np.random.PCG64(c.index))
        gens = [rng]
        tag.rng = rng

    class Disc:
        def __init__(self, vals):
            self.vals = np.array(vals, float)

        def rvs(self, size=None, random_state=None):
            u = random_state.random_sample(size) if hasattr(
                random_state, 'random_sample') else random_state.random(size)
            return self.vals[(u*len(self.vals)).astype(int)]
    y = {'tag': tag, 'one': ConstY(1.), 'zero': Disc([0., 0., 5.]),
         'pm': Disc([1., -1.])}[kind]
    if c.chance(.3):
        yy = y
        y = lambda t: yy
    n = int(np.prod(vshape, dtype=int))*paths
    lam = (6. if kind == 'tag' else 20.)/n/6.
    own = c.chance(.4)
    kw = dict(lam=lam)
    if own:
        kw = dict(dn=sd.true_poisson_source(
            paths=paths, vshape=vshape, lam=lam, t0=t0, rng=make_rng(c, 9)[0]))
    dj = sd.true_cpoisson_source(paths=paths, vshape=vshape, t0=t0, y=y,
                                 rng=rng, **kw)
    pool, exact = time_pool(c, t0)
    hist = History(c, 'true_cpoisson_source')
    c.sig(kind=kind, vshape=vshape, paths=paths, own=own, n=pool.size,
          i=c.index % 97)
    try:
        for _ in range(c.int(4, 16)):
            if own and c.chance(.2):
                dj.dn(float(c.rng.choice(pool)))
            with_faults(c, gens, .3, lambda: query(
                c, dj, pool, exact, hist, vshape, paths))
    except Inconclusive:
        c.signature = None
        return
    hist.see(t0, dj(t0))
    ts = np.array(sorted(hist.map))
    z = np.stack([hist.map[float(t)] for t in ts])
    dn = np.stack([dj.dn(float(t)) for t in ts])
    inc, ninc = np.diff(z, axis=0), np.diff(dn, axis=0)
    c.check((ninc >= 0).all(), 'jump-number')
    c.check((inc[ninc == 0] == 0).all(), 'jump-without-event')
    c.ev('jumps_accounted', int(ninc.sum()))
    # every stored value, number of events and jump is reported
    c.check(dj.size >= dj.t.size*n + dj.dn.size + ninc.sum(), 'stored-size',
            f'{dj.size} vs {dj.t.size}*{n} + {dj.dn.size} + {ninc.sum()}')
    if kind == 'one':
        c.equal(inc, ninc.astype(float), 'jump-number',
                'unit jumps vs number of events')
    elif kind == 'tag':
        seen = 0
        for i in np.ndindex(inc.shape):
            v = int(inc[i])
            c.check(v == inc[i] and v >= 0, 'jump-split')
            c.check(bin(v).count('1') == int(ninc[i]), 'jump-number',
                    f'{inc[i]} with {ninc[i]} events')
            c.check(v & seen == 0, 'jump-duplicated')
            seen |= v
    elif kind == 'zero':
        c.check((np.abs(inc) <= 5*ninc).all() and
                np.all(inc == 5*np.rint(inc/5)), 'jump-number')
    else:
        c.check((np.abs(inc) <= ninc).all() and
                ((inc - ninc) % 2 == 0).all(), 'jump-number',
                'jumps adding to 0')


@S05.section(300)
def tolerance(c):
    """within rtol, the stored realization is returned"""
    name = c.choice(SOURCES[6:])
    rtol = c.choice([1e-3, 1e-6, 1e-10])
    paths = 5
    kw = {} if 'wiener' in name else dict(lam=c.choice([.5, 3.]))
    src = getattr(sd, name)(paths=paths, rtol=rtol, rng=make_rng(c)[0], **kw)
    ts = np.cumsum(1 + c.rng.random(6))*c.choice([1, -1])
    for t in c.rng.permutation(ts):
        src(float(t))
    v = src(ts)
    size = src.size
    c.sig(name=name, rtol=rtol, sign=float(np.sign(ts[0])), i=c.index % 50)
    for _ in range(6):
        i = c.int(0, 5)
        s = ts[i]*(1 + rtol*c.choice([.5, -.5, .9, -.9, .01, -.01]))
        c.equal(src(float(s)), v[i], 'within-rtol', f't={ts[i]} s={s}')
        c.ev('within_rtol')
    c.check(src.size == size, 'within-rtol', 'new points were stored')
    c.equal(src(ts), v, 'history-changed')
    if 'wiener' in name:
        s = ts[2]*(1 + rtol*3)
        c.check(not np.array_equal(src(float(s)), v[2]), 'beyond-rtol')


# =====================================================================
# S06 laws of sources with memory
# =====================================================================
S06 = new(
    'S06', 'random query orders (outward, bridging, before and after t0) on '
    'sources with memory; increments between consecutive realized times are '
    'tested against the law of the memoryless source; non-trivial: distinct '
    '(class, correlation, order)', required=['statistical_samples'])


@S06.section(500)
def wiener(c):
    vshape = c.choice([(), (), (2,), (3,), (2, 2)])
    paths = max(400, 6000//int(np.prod(vshape, dtype=int)))
    # unit of time
    u = c.choice([1.]*6 + [1e-12, 1e-6, 1e7])
    t0 = c.choice([0., 0., 1., -2., .1])*u
    kind, kw, corr = 'none', {}, None
    if vshape and c.chance(.8):
        M = vshape[-1]
        kind = c.choice(['corr', 'rho' if M % 2 == 0 else 'corr', 'lin',
                         'linrho' if M % 2 == 0 else 'lin'])
        C, D = rand_corr(c, M), rand_corr(c, M)
        r = c.rng.random(max(M//2, 1))*1.6 - .8

        def mat(r):
            A = np.eye(M)
            for i in range(M//2):
                A[i, M//2 + i] = A[M//2 + i, i] = r[i]
            return A
        if kind == 'corr':
            kw, corr = dict(corr=C), lambda t: C
        elif kind == 'rho':
            kw, corr = dict(rho=r), lambda t: mat(r)
        elif kind == 'lin':
            corr = lambda t: C + (D - C)*(t/u + 10)/20
            kw = dict(corr=corr)
        else:
            f = lambda t: r*(1 - (t/u + 10)/20)
            kw, corr = dict(rho=f), lambda t: mat(f(t))
    dw = sd.true_wiener_source(paths=paths, vshape=vshape, t0=t0,
                               rng=make_rng(c)[0], **kw)
    n = c.int(3, 7)
    side = c.choice(['both', 'both', 'up', 'down'])
    ts = np.sort(c.rng.uniform(-4, 4, size=n))*u + t0
    if side == 'up':
        ts = t0 + np.abs(ts - t0)
    elif side == 'down':
        ts = t0 - np.abs(ts - t0)
    ts = np.sort(ts)
    order = c.choice(['random', 'random', 'bisect', 'outward', 'array',
                      'revarray'])
    q = c.rng.permutation(ts)
    if order == 'bisect':
        q = np.concatenate((ts[[0, -1]], c.rng.permutation(ts[1:-1])))
    elif order == 'outward':
        q = ts[np.argsort(np.abs(ts - t0))]
    if order == 'array':
        dw(q)
    elif order == 'revarray':
        dw(ts[::-1])
    else:
        for s in q:
            dw(float(s))
    c.sig(kind=kind, vshape=vshape, side=side, order=order, n=n, t0=t0, u=u)
    tt = np.unique(np.append(ts, t0))
    z = np.stack([dw(float(s)) for s in tt])
    inc = np.diff(z, axis=0)
    w = whiten(inc, tt[:-1], np.diff(tt), len(vshape), corr)
    stats.iid_normal(c, w, 'bridge-law', f'{kind} {side} {order}')
    a = w.reshape((w.shape[0], -1, paths))
    for i in range(a.shape[0]):
        c.zmean(a[i]**2, 1., np.sqrt(2), 'bridge-variance',
                f'{kind} {order} interval {i}')
        for j in range(i):
            c.zmean(a[i]*a[j], 0., 1., 'bridge-independence',
                    f'{kind} {order} intervals {i} {j}',
                    slack=3/np.sqrt(a[i].size))
    if vshape:
        b = np.moveaxis(w, -2, 0).reshape(vshape[-1], -1)
        for i in range(vshape[-1]):
            for j in range(i):
                c.zmean(b[i]*b[j], 0, 1, 'bridge-correlation',
                        f'{kind} {i} {j}', slack=3/np.sqrt(b[i].size))


@S06.section(60)
def steep_correlation(c):
    """Bridges with a correlation that changes fast along the interval"""
    paths = 60000
    t0 = c.choice([0., 0., 1., -3.])
    L = float(c.choice([2., 2., .5, 8.]))     # width of the explored range
    s0 = c.choice([-1, 1])*c.rng.uniform(.7, .97)
    rho = lambda t: s0*(t - t0)/L             # null at t0, |rho| <= |s0|
    how = c.choice(['rho', 'corr', 'process'])
    corr = lambda t: np.array([[1., rho(t)], [rho(t), 1.]])
    kw = {'rho': dict(rho=lambda t: np.array([rho(t)])),
          'corr': dict(corr=corr),
          'process': dict(corr=sd.process(
              np.array([t0 - L, t0 + L]),
              v=np.stack([corr(t0 - L), corr(t0 + L)])))}[how]
    dw = sd.true_wiener_source(paths=paths, vshape=(2,), t0=t0,
                               rng=make_rng(c)[0], **kw)
    side = c.choice([1, -1])
    n = c.choice([1, 1, 2, 3])
    ins = t0 + side*L*np.sort(c.rng.uniform(.1, .9, size=n))
    end = t0 + side*L
    q = [end] + list(c.rng.permutation(ins))
    if c.chance(.4):
        q.insert(0, t0 - side*L*.5)
    for t in q:
        dw(float(t))
    c.sig(how=how, side=side, n=n, L=L, sign=int(np.sign(s0)), t0=t0,
          both=len(q) > n + 1)
    tt = np.sort(np.array(q + [t0]))
    z = np.stack([dw(float(t)) for t in tt])
    inc, dt = np.diff(z, axis=0), np.diff(tt)
    x = inc/np.sqrt(dt)[:, None, None]
    for i in range(dt.size):
        r = rho(tt[i] + dt[i]/2)
        for k in range(2):
            c.zmean(x[i, k]**2, 1., np.sqrt(2), 'steep-variance', f'{how}')
        c.zmean(x[i, 0]*x[i, 1], r, np.sqrt(1 + r*r), 'steep-correlation',
                f'{how} {tt} {i}')
        for j in range(i):
            for k in range(2):
                for h in range(2):
                    c.zmean(x[i, k]*x[j, h], 0., 1., 'steep-independence',
                            f'{how} {tt} {i} {j}')


@S06.section(24)
def sparse(c):
    """few jumps, on few paths: how they split among inserted times"""
    vshape = c.choice([(), (2,), (3,), (2, 2)])
    paths = c.choice([1, 2, 4] if vshape else [2, 4])
    size = int(np.prod(vshape, dtype=int))*paths
    side = c.choice([1, 1, -1])
    t0 = float(c.choice([0., 2.]))
    w = c.rng.uniform(.15, .85)
    lam = c.choice([.3, 1., 2.5])*c.choice([1., 4./size])
    name = c.choice(['true_poisson_source', 'true_poisson_source',
                     'true_cpoisson_source'])
    c.sig(name=name, vshape=vshape, paths=paths, side=side, lam=lam)
    rng = make_rng(c)[0]
    kw = {} if name == 'true_poisson_source' else dict(y=sd.norm_rv(1., .1))
    N, K = [], []
    for i in range(500):
        src = getattr(sd, name)(paths=paths, vshape=vshape, lam=lam, t0=t0,
                                rng=rng, **kw)
        dn = getattr(src, 'dn', src)
        src(t0 + side)
        src(t0 + side*w)
        z = np.stack([dn(t0 + side*w), dn(t0 + side)]) - dn(t0)
        z = z*side
        K.append(z[0].ravel())
        N.append(z[1].ravel())
    N, K = np.stack(N), np.stack(K)
    c.check((K >= 0).all() and (K <= N).all(), 'bridge-counts')
    stats.poisson_law(c, N.ravel(), lam, 'sparse-total', name)
    for one in (False, True):
        ok = N.max(axis=1) == 1 if one else N.max(axis=1) > 0
        n, e = N[ok], (K - w*N)[ok]
        if not n.size:
            continue
        d = np.where(n > 0, e/np.sqrt(w*(1 - w)*np.maximum(n, 1)), 0)
        c.zmean(d[n > 0], 0., 1., 'sparse-split', f'{name} single={one}',
                slack=30./n.size)
        pairs = np.concatenate([
            (d[:, i]*d[:, j])[(n[:, i] > 0) & (n[:, j] > 0)]
            for i in range(size) for j in range(i)])
        c.ev('joint_splits', pairs.size)
        if pairs.size > 30:
            r = 1/np.sqrt(w*(1 - w))
            c.zmean(pairs, 0., 1., 'sparse-independence',
                    f'{name} single={one} {vshape} paths={paths} '
                    f'{pairs.size} pairs', slack=15*r*r/pairs.size)


@S06.section(400)
def poisson(c):
    name = c.choice(['true_poisson_source', 'true_cpoisson_source'])
    vshape = c.choice([(), (2,)])
    paths = 4000
    # unit of time, large numbers of jumps
    u = c.choice([1.]*6 + [1e-12, 1e-6, 1e7])
    big = c.choice([1.]*5 + [40., 2000., 1e5]) \
        if name == 'true_poisson_source' else 1.
    t0 = c.choice([0., 1., .1])*u
    lam = float(c.rng.random()*2 + .3)*big/u
    larg, lv = lam, np.full(vshape + (1,), lam)
    if vshape and c.chance(.5):
        lv = np.array([[.5], [2.]])*big/u
        larg = lv
    kw = {}
    yk = y = None
    if name == 'true_cpoisson_source':
        yk = c.choice(['norm', 'exp', 'unif'])
        y = {'norm': sd.norm_rv(.5, 1.), 'exp': sd.exp_rv(.7),
             'unif': sd.uniform_rv(0, 1)}[yk]
        cdf, m1, m2 = {
            'norm': (scipy.stats.norm(.5, 1).cdf, .5, 1.25),
            'exp': (scipy.stats.expon(scale=.7).cdf, .7, 2*.49),
            'unif': (scipy.stats.uniform().cdf, .5, 1/3)}[yk]
        kw['y'] = y
    src = getattr(sd, name)(paths=paths, vshape=vshape, lam=larg, t0=t0,
                            rng=make_rng(c)[0], **kw)
    n = c.int(2, 5)
    ts = t0 + c.rng.uniform(-2, 2, size=n)*u
    side = c.choice(['both', 'up', 'down'])
    if side == 'up':
        ts = t0 + np.abs(ts - t0)
    elif side == 'down':
        ts = t0 - np.abs(ts - t0)
    ts = np.sort(ts)
    order = c.choice(['random', 'bisect'])
    q = c.rng.permutation(ts)
    if order == 'bisect' and n > 2:
        q = np.concatenate((ts[[0, -1]], c.rng.permutation(ts[1:-1])))
    if c.chance(.5):
        src(q)
    else:
        for s in q:
            src(float(s))
    c.sig(name=name, vshape=vshape, side=side, order=order, n=n, yk=yk,
          t0=t0, larr=np.ndim(larg), u=u, big=big)
    tt = np.unique(np.append(ts, t0))
    z = np.stack([src(float(s)) for s in tt])
    inc, dt = np.diff(z, axis=0), np.diff(tt)
    m = np.stack([np.broadcast_to(lv*d, vshape + (paths,)) for d in dt])
    if yk is None:
        for i in range(dt.size):
            for j in np.ndindex(vshape):
                stats.poisson_law(c, inc[i][j], float(m[i][j][0]),
                                  'bridge-poisson', f'{side} {order}')
        num, scaled = inc, (inc - m)/np.sqrt(m)
    else:
        num = np.diff(np.stack([src.dn(float(s)) for s in tt]), axis=0)
        for i in range(dt.size):
            for j in np.ndindex(vshape):
                mu = float(m[i][j][0])
                stats.poisson_law(c, num[i][j], mu, 'bridge-poisson',
                                  f'{side} {order}')
                c.zmean(inc[i][j], mu*m1, np.sqrt(mu*m2), 'bridge-mean', yk,
                        slack=30*np.sqrt(m2)/paths)
                x1 = inc[i][j][num[i][j] == 1]
                if x1.size > 50:
                    p = scipy.stats.kstest(x1, cdf).pvalue
                    c.ev('ks_tests')
                    c.check(p > 1e-11, 'bridge-jump-law', f'{yk} p={p}')
                x2 = inc[i][j][num[i][j] == 2]
                if x2.size > 100:
                    c.zmean(x2, 2*m1, np.sqrt(2*(m2 - m1*m1)),
                            'bridge-pairs', yk, slack=5/x2.size)
        scaled = (inc - m*m1)/np.sqrt(m*m2)
    for i in range(dt.size):
        for k in range(i):
            stats.uncorrelated(c, scaled[i], scaled[k],
                               'bridge-independence', f'{name} {order}')
    if vshape:
        stats.uncorrelated(c, scaled[:, 0], scaled[:, 1],
                           'bridge-independence', f'{name} values')


# =====================================================================
# S07 jump distributions
# =====================================================================
S07 = new(
    'S07', 'random (array, scalar, time dependent) parameters of the preset '
    'jump distributions; mean/var/std/exp_mean vs numerical quadrature of '
    'the stated density, samples vs distribution; mapped distributions vs '
    'mapped samples; non-trivial: distinct (distribution, parameter shapes)',
    required=['moments_checked', 'rejections_observed'])


def _pdf(kind, a, b, pa):
    if kind == 'norm':
        return (lambda x: np.exp(-(x-a)**2/2/b**2)/b/np.sqrt(2*np.pi),
                a - 12*b, a + 12*b + b*b, a)
    if kind == 'uniform':
        return (lambda x: 1./(b - a), a, b, (a + b)/2)
    if kind == 'exp':
        if a > 0:
            return (lambda x: np.exp(-x/a)/a, 0., 60*a/min(1, max(1-a, .05)),
                    a)
        return (lambda x: np.exp(x/-a)/-a, 60*a, 0., a)
    return (lambda x: pa*np.exp(-x/a)/a if x >= 0
            else (1-pa)*np.exp(x/b)/b, -60*b,
            60*a/min(1, max(1-a, .05)) if pa > 0 else 0., 0.)


def quad_moments(kind, a, b, pa):
    f, lo, hi, mid = _pdf(kind, a, b, pa)

    def E(g):
        return sum(scipy.integrate.quad(lambda x: g(x)*f(x), u, v,
                                        limit=200, epsabs=1e-13)[0]
                   for u, v in ((lo, mid), (mid, hi)) if v > u)
    m = E(lambda x: x)
    v = E(lambda x: (x - m)**2)
    inf = kind in ('exp', 'double_exp') and a >= 1 and not (
        kind == 'double_exp' and pa == 0)
    em = np.inf if inf else E(np.exp)
    return m, v, np.sqrt(v), em


def rv_params(c, kind, shape):
    r = c.rng
    if kind == 'norm':
        return dict(a=r.normal(size=shape)*.5, b=r.random(shape)*.8 + .05)
    if kind == 'uniform':
        a = r.normal(size=shape)
        return dict(a=a, b=a + .1 + r.random(shape))
    if kind == 'exp':
        a = r.random(shape)*1.4 + .05
        a = np.where((a > .9) & (a < 1.05), c.choice([1.2, 1.]), a)
        return dict(a=a*np.where(r.random(shape) < .4, -1, 1))
    a = r.random(shape)*1.4 + .05
    a = np.where((a > .9) & (a < 1.05), c.choice([1.2, 1.]), a)
    return dict(a=a, b=r.random(shape)*2 + .05,
                pa=np.where(r.random(shape) < .2, r.random(shape) < .5,
                            r.random(shape)*.98 + .01))


KINDS = ['norm', 'uniform', 'exp', 'double_exp']


@S07.section(500)
def moments(c):
    kind = c.choice(KINDS)
    shape = c.choice([(), (), (1,), (3,), (2, 1)])
    pr = rv_params(c, kind, shape)
    if kind != 'exp' and shape and c.chance(.3):
        k = c.choice(sorted(pr))     # broadcast a scalar with arrays
        if kind != 'uniform':
            pr[k] = float(np.ravel(pr[k])[0])
    tdep = c.chance(.3)
    f = getattr(sd, kind + '_rv')
    c.sig(kind=kind, shape=shape, tdep=tdep, i=c.index % 23)
    if tdep:
        name = c.choice(sorted(pr))
        val = pr[name]
        arg = dict(pr)
        arg[name] = lambda t: val if t > 1 else 1/0
        rv = f(**arg)
        c.check(callable(rv), 'rv-time-dependent')
        rv = rv(2.)
    else:
        rv = f(**pr)
        c.check(not callable(rv), 'rv-constant')
    full = np.broadcast_arrays(*[np.asarray(v) for v in pr.values()])
    arrs = dict(zip(pr, full))
    exp = np.empty((4,) + full[0].shape)
    for i in np.ndindex(full[0].shape):
        a = float(arrs['a'][i])
        b = float(arrs['b'][i]) if 'b' in arrs else None
        pa = float(arrs['pa'][i]) if 'pa' in arrs else None
        exp[(slice(None),) + i] = quad_moments(kind, a, b, pa)
    for k, name in enumerate(['mean', 'var', 'std', 'exp_mean']):
        got = np.asarray(getattr(rv, name)())
        got = np.broadcast_to(got, full[0].shape)
        ok = np.isfinite(exp[k])
        c.check((np.isinf(got) == ~ok).all(), 'rv-' + name,
                f'{kind} {got} vs {exp[k]}')
        c.close(got[ok], exp[k][ok], 'rv-' + name, f'{kind} {pr}', rtol=2e-6)
        c.ev('moments_checked')


@S07.section(200)
def along_time(c):
    """a time dependent distribution, at several times in any order"""
    kind = c.choice(KINDS)
    shape = c.choice([(), (), (2,), (2, 1)])
    times = [float(s) for s in c.rng.normal(size=c.int(2, 4))]
    values = {s: rv_params(c, kind, shape) for s in times}
    arg = {}
    for k in values[times[0]]:
        mode = c.choice(['fixed', 'fun', 'fun', 'scalar-or-array'])
        if mode == 'scalar-or-array' and kind == 'uniform':
            mode = 'fun'
        if mode == 'fixed' and kind != 'uniform':
            v = arg[k] = values[times[0]][k]
            for s in times:
                values[s][k] = v
            continue
        if mode == 'scalar-or-array':
            for s in times:
                if c.chance(.5):
                    values[s][k] = float(np.ravel(values[s][k])[0])
        arg[k] = lambda t, k=k: values[float(t)][k]
    rv = getattr(sd, kind + '_rv')(**arg)
    tdep = any(map(callable, arg.values()))
    c.check(callable(rv) == tdep, 'rv-time-dependent')
    mapped = tdep and c.chance(.3)
    c.sig(kind=kind, shape=shape, n=len(times), tdep=sorted(
        k for k in arg if callable(arg[k])), mapped=mapped)
    order = times + [times[i] for i in c.rng.integers(len(times), size=2)]
    held = []
    for s in order:
        r = rv(s) if tdep else rv
        held.append((s, r))
    for i in c.rng.permutation(len(held)):
        s, r = held[i]
        pr = values[s]
        full = np.broadcast_arrays(*[np.asarray(v) for v in pr.values()])
        arrs = dict(zip(pr, full))
        sh = full[0].shape
        for j, name in enumerate(['mean', 'var', 'exp_mean']):
            got = np.broadcast_to(np.asarray(getattr(r, name)()), sh)
            for i in np.ndindex(sh):
                a, b, pa = (float(arrs[k][i]) if k in arrs else None
                            for k in ('a', 'b', 'pa'))
                e = quad_moments(kind, a, b, pa)[j if j < 2 else 3]
                if np.isfinite(e):
                    c.close(got[i], e, 'rv-' + name, f'{kind} t={s} {pr}',
                            rtol=2e-6, atol=1e-9)
                else:
                    c.check(np.isinf(got[i]), 'rv-' + name)
                c.ev('moments_checked')
    if mapped:
        # sampled along time: the sample follows the parameters
        f = sd.rvmap(lambda y: 2*y, rv)
        for s in order:
            size = (7,) + np.broadcast_shapes(
                *[np.shape(v) for v in values[s].values()])
            x, y = (d(s).rvs(size=size,
                             random_state=np.random.default_rng(5))
                    for d in (rv, f))
            c.close(y, 2*x, 'rv-mapped-along-time', kind, rtol=1e-12)


@S07.section(300)
def samples(c):
    kind = c.choice(KINDS)
    pr = {k: float(v) for k, v in rv_params(c, kind, ()).items()}
    if kind == 'double_exp' and c.chance(.2):
        pr['pa'] = c.choice([0., 1.])
    tdep = c.chance(.3)
    f = getattr(sd, kind + '_rv')
    rng = make_rng(c)[0]
    size = c.choice([4000, (2000, 2), (10, 20, 20)])
    c.sig(kind=kind, tdep=tdep, size=size, neg=pr['a'] < 0)
    if tdep:
        rv = f(**{k: (lambda t, v=v: v*t) for k, v in pr.items()})(1.)
    else:
        rv = f(**pr)
    g0 = global_states()
    x = rv.rvs(size=size, random_state=rng)
    c.check(global_states() == g0, 'global-generator-touched')
    c.check(x.shape == (size if isinstance(size, tuple) else (size,)),
            'rv-shape')
    a, b, pa = pr['a'], pr.get('b'), pr.get('pa')
    S = scipy.stats
    cdf = {'norm': lambda z: S.norm.cdf(z, a, b),
           'uniform': lambda z: np.clip((z - a)/(b - a), 0, 1),
           'exp': lambda z: (1 - np.exp(-np.maximum(z, 0)/a) if a > 0
                             else np.exp(-np.minimum(z, 0)/a)),
           'double_exp': lambda z: np.where(
               z < 0, (1 - pa)*np.exp(np.minimum(z, 0)/b),
               1 - pa*np.exp(-np.maximum(z, 0)/a))}[kind] \
        if kind != 'exp' or a > 0 else \
        (lambda z: np.exp(np.minimum(z, 0)/-a))
    p = S.kstest(x.ravel(), cdf).pvalue
    c.ev('ks_tests')
    c.check(p > 1e-11, 'rv-distribution', f'{kind} {pr} p={p}')
    c.check(np.unique(x).size == x.size, 'rv-duplicates', kind)
    y = x.reshape(-1)
    stats.uncorrelated(c, y[1:], y[:-1], 'rv-independence', kind)


@S07.section(400)
def mapped(c):
    kind = c.choice(KINDS)
    pr = {k: float(v) for k, v in rv_params(c, kind, ()).items()}
    base = getattr(sd, kind + '_rv')(**pr)
    yt = c.chance(.4)
    y = (lambda t: getattr(sd, kind + '_rv')(
        **{k: v*(1 if k == 'pa' else t) for k, v in pr.items()})) \
        if yt else base
    # the name of the first argument states if f is time dependent
    mode = c.choice(['y', 't', 's', 'z', 'tx', 'sx', 'sdef', 'xt'])
    f = {'y': lambda y: np.exp(y) - 1, 'z': lambda z: z*z,
         't': lambda t, y: t*y + 1, 's': lambda s, y: y - s,
         'tx': lambda t, x: x*x - t, 'sx': lambda s, x, b=2.: b*s*x,
         'sdef': lambda s, jump=None: jump/(1 + s*s),
         'xt': lambda x, t=2.: x*t}[mode]
    tdep = mode[0] in 'ts'
    s, kd = int(c.rng.integers(1000)), c.choice(['pcg', 'rs'])
    t = float(c.rng.random() + .5)
    size = c.choice([(7,), (3, 2), 5])
    c.sig(kind=kind, yt=yt, mode=mode, size=size)
    M = sd.rvmap(f, y)
    times = [t]
    if yt or tdep:
        c.check(callable(M), 'rvmap-time-dependent')
        # close times, and times seen before
        times += [t + 1e-7, t, t*1.5, t + 1e-4, t*(1 + 1e-11), t]
    for t in times:
        m = M(t) if yt or tdep else M
        got = m.rvs(size=size, random_state=rng_from(kd, s))
        b = y(t) if yt else y
        v = b.rvs(size=size, random_state=rng_from(kd, s))
        c.close(got, f(t, v) if tdep else f(v), 'rvmap-values', mode,
                rtol=1e-13)
        c.ev('moments_checked')


@S07.section(150)
def domain(c):
    k = c.choice(['exp0', 'exp0arr', 'da', 'db', 'pa+', 'pa-', 'daarr'])
    f = {'exp0': lambda: sd.exp_rv(0.),
         'exp0arr': lambda: sd.exp_rv(np.array([1., 0., -1.])),
         'da': lambda: sd.double_exp_rv(c.choice([0., -1.]), 1., .5),
         'db': lambda: sd.double_exp_rv(1., c.choice([0., -.5]), .5),
         'pa+': lambda: sd.double_exp_rv(1., 1., 1 + c.rng.random() + 1e-6),
         'pa-': lambda: sd.double_exp_rv(1., 1., -c.rng.random() - 1e-6),
         'daarr': lambda: sd.double_exp_rv([1., 2.], [1., -1.], .5)}[k]
    c.sig(k=k)
    c.raises(ValueError, f, 'domain-accepted', k)
