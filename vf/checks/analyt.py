"""Monitors of the closed form results: statistics of the preset processes
(A01), characteristic functions and densities obtained from them (A03),
Black-Scholes formulae (A02).

The oracles are evaluated independently (moment equations solved by matrix
exponentials, Poisson mixtures, Riccati equations integrated numerically,
quadrature of densities) and by the identities any law has to satisfy."""
import math

import numpy as np
import scipy.linalg
import scipy.stats
import scipy.integrate
import sdepy as sd

from ..core import Check

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


GLX, GLW = np.polynomial.legendre.leggauss(200)


def quad(f, a, b, pieces=4):
    """Gauss-Legendre quadrature of a smooth function"""
    e = np.linspace(a, b, pieces + 1)
    tot = 0.
    for lo, hi in zip(e[:-1], e[1:]):
        x = (hi + lo)/2 + (hi - lo)/2*GLX
        tot = tot + (hi - lo)/2*np.sum(GLW*f(x))
    return tot


def npdf(x, m, s):
    return math.exp(-(x - m)**2/(2*s*s))/(s*math.sqrt(2*math.pi))


def ncdf(x, m=0., s=1.):
    return .5*math.erfc(-(x - m)/(s*math.sqrt(2)))


# ---------------------------------------------------------------------
# independent reference laws (scalar arguments)

class Normal:
    def __init__(self, m, v):
        self.m, self.v = m, v

    def mean(self):
        return self.m

    def var(self):
        return self.v

    def pdf(self, x):
        return npdf(x, self.m, math.sqrt(self.v))

    def cdf(self, x):
        return ncdf(x, self.m, math.sqrt(self.v))

    def chf(self, u):
        return np.exp(1j*u*self.m - u*u*self.v/2)


class Lognormal:
    def __init__(self, m, v):
        self.n = Normal(m, v)

    def mean(self):
        return math.exp(self.n.m + self.n.v/2)

    def var(self):
        return math.exp(2*self.n.m + self.n.v)*math.expm1(self.n.v)

    def pdf(self, x):
        return 0. if x <= 0 else self.n.pdf(math.log(x))/x

    def cdf(self, x):
        return 0. if x <= 0 else self.n.cdf(math.log(x))

    def log_chf(self, u):
        return self.n.chf(u)


def linear_moments(M, y, t):
    """solve dy/dt = M y"""
    return scipy.linalg.expm(np.asarray(M, float)*t) @ np.asarray(y, float)


def ou_law(t, x0, theta, k, sigma):
    # (1, m, v)
    m = linear_moments([[0, 0], [k*theta, -k]], [1, x0], t)[1]
    v = linear_moments([[0, 0], [sigma**2, -2*k]], [1, 0], t)[1]
    return m, v


class CIR:
    def __init__(self, t, x0, theta, k, xi):
        self.a = (t, x0, theta, k, xi)

    def _mom(self):
        t, x0, theta, k, xi = self.a
        M = [[0, 0, 0], [k*theta, -k, 0], [0, xi*xi, -2*k]]
        return linear_moments(M, [1, x0, 0], t)

    def mean(self):
        return self._mom()[1]

    def var(self):
        return self._mom()[2]

    def pdf(self, x):
        """Poisson mixture of gamma distributions"""
        t, x0, theta, k, xi = self.a
        c = 2*k/(-math.expm1(-k*t)*xi*xi)
        lam = c*x0*math.exp(-k*t)
        q = 2*k*theta/(xi*xi)
        n = np.arange(max(0, int(lam - 12*math.sqrt(lam) - 40)),
                      int(lam + 12*math.sqrt(lam) + 60))
        if x <= 0:
            return 0.
        w = scipy.stats.poisson.logpmf(n, lam) + \
            scipy.stats.gamma.logpdf(x, q + n, scale=1/c)
        return float(np.exp(w).sum())


def heston_moments(t, x0, mu, sigma, y0, theta, k, xi, rho):
    # (1, EY, VarY, EL, CovLY, VarL)
    s2 = sigma*sigma
    M = np.zeros((6, 6))
    M[1, 0], M[1, 1] = k*theta, -k
    M[2, 1], M[2, 2] = xi*xi, -2*k
    M[3, 0], M[3, 1] = mu, -s2/2
    M[4, 2], M[4, 4], M[4, 1] = -s2/2, -k, rho*sigma*xi
    M[5, 4], M[5, 1] = -s2, s2
    y = linear_moments(M, [1, y0, 0, math.log(x0), 0, 0], t)
    return y[3], y[5]


def heston_chf(t, u, x0, mu, sigma, y0, theta, k, xi, rho):
    """Riccati equations, integrated numerically"""
    u = np.atleast_1d(np.asarray(u, complex))
    n = u.size
    al = -.5*sigma*sigma*(u*u + 1j*u)
    be = k - rho*sigma*xi*1j*u

    def f(s, y):
        D = y[:n]
        return np.concatenate((al - be*D + .5*xi*xi*D*D, k*theta*D))
    y = scipy.integrate.solve_ivp(f, (0, t), np.zeros(2*n, complex),
                                  method='DOP853', rtol=1e-10,
                                  atol=1e-12).y[:, -1]
    return np.exp(1j*u*(math.log(x0) + mu*t) + y[n:] + y[:n]*y0)


class MJD:
    """Poisson mixture of normals (log values)"""

    def __init__(self, t, x0, mu, sigma, lam, a, b):
        self.a = (t, x0, mu, sigma, lam, a, b)
        self.n = np.arange(0, int(lam*t + 12*math.sqrt(lam*t) + 40))
        self.w = scipy.stats.poisson.pmf(self.n, lam*t)
        self.m = math.log(x0) + (mu - sigma**2/2)*t + self.n*a
        self.v = sigma**2*t + self.n*b*b

    def mean(self):
        t, x0, mu, sigma, lam, a, b = self.a
        return x0*float(np.exp(mu*t + lam*t*(math.exp(a + b*b/2) - 1)))

    def log_chf(self, u):
        return np.sum(self.w*np.exp(1j*u*self.m - u*u*self.v/2))

    def log_pdf(self, x):
        return float(np.sum(self.w*np.exp(-(x - self.m)**2/2/self.v) /
                            np.sqrt(2*np.pi*self.v)))

    def moments(self):
        m = np.sum(self.w*self.m)
        return m, np.sum(self.w*(self.v + self.m**2)) - m*m


class Kou:
    def __init__(self, t, x0, mu, sigma, lam, a, b, pa):
        self.a = (t, x0, mu, sigma, lam, a, b, pa)

    def mean(self):
        t, x0, mu, sigma, lam, a, b, pa = self.a
        # E[exp(jump)] for exponential laws of means a, b
        j = pa/(1 - a) + (1 - pa)/(1 + b)
        return x0*float(np.exp(mu*t + lam*t*(j - 1)))

    def log_chf(self, u):
        t, x0, mu, sigma, lam, a, b, pa = self.a
        j = pa/(1 - 1j*u*a) + (1 - pa)/(1 + 1j*u*b)
        return np.exp(1j*u*(math.log(x0) + (mu - sigma**2/2)*t) -
                      u*u*sigma**2*t/2 + lam*t*(j - 1))

    def moments(self):
        t, x0, mu, sigma, lam, a, b, pa = self.a
        m = math.log(x0) + (mu - sigma**2/2)*t + \
            lam*t*(pa*a - (1 - pa)*b)
        return m, sigma**2*t + lam*t*(2*pa*a*a + 2*(1 - pa)*b*b)

    def log_pdf(self, x):
        """Fourier inversion by the trapezoidal rule"""
        sd_ = self.a[3]*math.sqrt(self.a[0])
        m, v = self.moments()
        L = abs(x - m) + 40*math.sqrt(v) + 60*max(self.a[5], self.a[6])
        h = math.pi/L
        u = np.arange(0, 10./sd_ + h, h)
        f = np.real(np.exp(-1j*u*x)*self.log_chf(u))
        return float(h/np.pi*(f.sum() - f[0]/2))


def make(family, t, p):
    if family == 'wiener':
        return Normal(p['x0'] + p['mu']*t, p['sigma']**2*t)
    if family == 'lognorm':
        return Lognormal(math.log(p['x0']) + (p['mu'] - p['sigma']**2/2)*t,
                         p['sigma']**2*t)
    if family in ('oruh', 'hw1f'):
        return Normal(*ou_law(t, p['x0'], p['theta'], p['k'], p['sigma']))
    if family == 'cir':
        return CIR(t, p['x0'], p['theta'], p['k'], p['xi'])
    if family == 'mjd':
        return MJD(t, **p)
    if family == 'kou':
        return Kou(t, **p)
    if family == 'heston':
        return Normal(*heston_moments(t, **p))
    raise KeyError(family)


# families: parameters, statistics, defaults
DEF = dict(
    wiener=dict(x0=0., mu=0., sigma=1.),
    lognorm=dict(x0=1., mu=0., sigma=1.),
    oruh=dict(x0=0., theta=0., k=1., sigma=1.),
    hw1f=dict(x0=0., theta=0., k=1., sigma=1.),
    cir=dict(x0=1., theta=1., k=1., xi=1.),
    heston=dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1.,
                rho=0.),
    mjd=dict(x0=1., mu=0., sigma=1., lam=1., a=0., b=1.),
    kou=dict(x0=1., mu=0., sigma=1., lam=1., a=.5, b=.5, pa=.5))
STATS = dict(
    wiener=('mean', 'var', 'std', 'pdf', 'cdf', 'chf'),
    lognorm=('mean', 'var', 'std', 'pdf', 'cdf', 'log_chf'),
    oruh=('mean', 'var', 'std', 'pdf', 'cdf'),
    hw1f=('mean', 'var', 'std', 'pdf', 'cdf'),
    cir=('mean', 'var', 'std', 'pdf'),
    heston=('log_mean', 'log_var', 'log_std'),
    mjd=('mean',), kou=('mean',))


def fun(family, stat):
    return getattr(sd, f'{family}_{stat}')


def draw(c, family, k, as_int=False):
    """a scalar value of parameter k of a law"""
    r = c.rng
    if as_int and k not in ('rho', 'pa') and not (
            family == 'kou' and k == 'a'):
        return int(r.integers(1, 4))
    if k in ('mu', 'theta') and family not in ('cir', 'heston') or \
            k == 'mu' or family == 'mjd' and k == 'a' or \
            k == 'x0' and family in ('wiener', 'oruh', 'hw1f'):
        return float(r.normal())*.7
    if k == 'rho':
        return float(r.uniform(-.95, .95))
    if k == 'pa':
        return float(r.choice([0., 1., r.random(), r.random()]))
    if family == 'kou' and k == 'a':
        return float(r.uniform(.02, .8))
    if k == 'lam':
        return float(r.choice([0.] + [r.random()*4]*5))
    return float(r.uniform(.15, 1.8))


def draw_t(c):
    return float(c.rng.choice([c.rng.uniform(.05, 3), c.rng.uniform(.5, 2),
                               1., c.rng.uniform(3, 12)]))


def ref_value(family, stat, t, x, p):
    if stat in ('std', 'log_std'):
        return math.sqrt(ref_value(family, stat[:-3] + 'var', t, x, p))
    law = make(family, t, p)
    if family == 'heston':
        return getattr(law, stat[4:])()
    f = getattr(law, stat)
    return f() if x is None else f(x)


def point(c, family, stat, law):
    """an interesting argument of pdf, cdf, chf"""
    if stat.endswith('chf'):
        return float(c.rng.normal()*c.choice([.3, 1, 3]))
    s = math.sqrt(law.var())
    z = float(c.rng.normal()*c.choice([.5, 1, 2]))
    if family == 'lognorm':
        return c.choice([math.exp(law.n.m + z*math.sqrt(law.n.v))]*9 +
                        [-.5])
    x = law.mean() + z*s
    if family == 'cir':
        x = abs(x) + 1e-3
    return x


# =====================================================================
A01 = new(
    'A01', 'closed form statistics of the preset processes at random '
    'times, parameters and argument shapes, against independently solved '
    'moment equations, mixtures and quadrature; non-trivial: distinct '
    '(statistics, argument shapes, parameters given)',
    required=['values_compared', 'quadratures'])


@A01.section(4000)
def reference(c):
    """scalar evaluations"""
    family = c.choice(list(STATS))
    stat = c.choice(STATS[family])
    t = draw_t(c)
    ints = c.chance(.1)
    if ints:
        t = c.int(1, 3)
    given = {k: draw(c, family, k, ints) for k in DEF[family]
             if c.chance(.8)}
    p = {**DEF[family], **given}
    if ints:
        p = {k: float(v) for k, v in p.items()}
    x = None
    law = make(family, t, p)
    if stat in ('pdf', 'cdf') or stat.endswith('chf'):
        x = point(c, family, stat, law)
        if ints and family not in ('lognorm', 'cir') and abs(x) > 1:
            x = int(round(x))
    want = ref_value(family, stat, t, x, p)
    if not np.isfinite(want) or abs(want) > 1e50:
        return
    got = fun(family, stat)(t, **given) if x is None else \
        fun(family, stat)(t, x, **given)
    c.sig(family=family, stat=stat, given=sorted(given), ints=ints,
          t=round(math.log(t + 1e-9)))
    c.note(t=t, x=x, given=given)
    got = np.asarray(got)
    c.check(got.shape == (), 'scalar-shape', f'{family}_{stat}')
    if stat.endswith('chf'):
        c.close(got, want, f'{family}-{stat}', rtol=1e-8, atol=1e-12)
    else:
        # cancellation in closed forms at small k*t
        c.close(got.astype(float), float(want), f'{family}-{stat}',
                f't={t} x={x} {given}', rtol=1e-6 if family == 'heston'
                else 1e-8, atol=1e-8 if family == 'heston' else 1e-13)


@A01.section(1200)
def extreme(c):
    """parameters and times over many orders of magnitude"""
    family = c.choice(['wiener', 'lognorm', 'oruh', 'hw1f', 'cir', 'mjd',
                       'kou'])
    r = c.rng

    def mag(lo, hi):
        return float(10**r.uniform(lo, hi))
    t = c.choice([mag(-9, 3), mag(-9, -3), mag(0, 3), 0.])
    E, X = math.exp, math.expm1
    eps = 1e-9
    x0, theta = float(r.normal())*mag(-3, 3), float(r.normal())*mag(-3, 3)
    mu, sigma = float(r.normal())*mag(-4, 0), mag(-6, 2)
    k = mag(-5, 3)
    if family == 'wiener':
        kw = dict(x0=x0, mu=mu, sigma=sigma)
        m, v = x0 + mu*t, sigma**2*t
    elif family == 'lognorm':
        x0, sigma = abs(x0), mag(-4, 0)
        kw = dict(x0=x0, mu=mu, sigma=sigma)
        if max(abs(mu*t), sigma**2*t) > 50:
            t = min(1., t)
        m, v = x0*E(mu*t), x0**2*X(sigma**2*t)*E(2*mu*t)
        eps += 1e-15/max(sigma**2*t, 1e-300)
    elif family in ('oruh', 'hw1f'):
        kw = dict(x0=x0, theta=theta, k=k, sigma=sigma)
        m = x0*E(-k*t) - theta*X(-k*t)
        v = -sigma**2*X(-2*k*t)/2/k
        eps += 1e-15/max(k*t, 1e-300)
    elif family == 'cir':
        x0, theta, xi = abs(x0), abs(theta), mag(-4, 1)
        kw = dict(x0=x0, theta=theta, k=k, xi=xi)
        m = x0*E(-k*t) - theta*X(-k*t)
        v = -x0*xi**2/k*E(-k*t)*X(-k*t) + theta*xi**2/2/k*X(-k*t)**2
        eps += 1e-15/max(k*t, 1e-300)
    else:
        x0, lam = abs(x0), c.choice([0., mag(-3, 1)])
        kw = dict(x0=x0, mu=mu, sigma=sigma, lam=lam)
        if family == 'mjd':
            kw.update(a=float(r.normal()), b=mag(-3, 0))
            em = E(kw['a'] + kw['b']**2/2)
        else:
            kw.update(a=c.choice([mag(-3, -.01), mag(0, 2), 1., .5]),
                      b=mag(-3, 1), pa=c.choice([0., 1., float(r.random())]))
            a, b, pa = kw['a'], kw['b'], kw['pa']
            em = (1 - pa)/(1 + b) + (
                0. if pa == 0 else pa/(1 - a) if a < 1 else math.inf)
        if math.isinf(em) and (lam == 0 or t == 0):
            g = mu*t
        else:
            g = (mu + lam*(em - 1))*t if lam else mu*t
        if math.isfinite(g) and abs(g) > 300:
            return
        m, v = x0*(math.inf if g == math.inf else E(g)), None
        eps += 1e-14*abs(g) if math.isfinite(g) else 0
    c.sig(family=family, t=round(math.log10(t or 1e-10)),
          k=round(math.log10(k)) if family in ('oruh', 'cir') else 0,
          inf=math.isinf(m))
    c.note(t=t, kw=kw)
    got = float(fun(family, 'mean')(t, **kw))
    scale = abs(m) if math.isfinite(m) else 0
    if family in ('oruh', 'hw1f', 'cir', 'wiener'):
        scale = max(abs(x0), abs(theta))     # sum of terms of any sign
    if math.isinf(m):
        c.check(got == m, f'{family}-mean', f't={t} {kw}: {got} not {m}')
    else:
        c.check(abs(got - m) <= 1e-9*scale + 1e-9*abs(m) + 1e-300,
                f'{family}-mean', f't={t} {kw}: {got} not {m}')
    if v is not None and eps < .1:
        for st, w in (('var', v), ('std', math.sqrt(v))):
            got = float(fun(family, st)(t, **kw))
            c.check(abs(got - w) <= eps*w + 1e-300, f'{family}-{st}',
                    f't={t} {kw}: {got} not {w}')
    c.ev('values_compared')
    if v is None or t == 0 or eps > 1e-7 or not v > 0:
        return
    z = float(r.normal())*c.choice([1, 1, 2])
    if family == 'lognorm':
        lm, ls = math.log(x0) + (mu - sigma**2/2)*t, sigma*math.sqrt(t)
        x = E(lm + z*ls)
        jac = 1/x
    elif family in ('oruh', 'hw1f', 'wiener'):
        lm, ls = m, math.sqrt(v)
        x = lm + z*ls
        z = (x - lm)/ls
        jac = 1.
        # rounding of x relative to its deviation
        if abs(x) + scale > 1e6*ls:
            return
    else:
        return
    if ls < 1e-5*abs(lm):
        return
    got = float(fun(family, 'pdf')(t, x, **kw))
    want = E(-z*z/2)/math.sqrt(2*math.pi)/ls*jac
    c.check(abs(got - want) <= 1e-4*want, f'{family}-pdf',
            f't={t} x={x} {kw}: {got} not {want}')
    got = float(fun(family, 'cdf')(t, x, **kw))
    want = math.erfc(-z/math.sqrt(2))/2
    c.check(abs(got - want) <= 1e-4*want, f'{family}-cdf',
            f't={t} x={x} {kw}: {got} not {want}')
    c.ev('values_compared', 2)


@A01.section(1500)
def hull_white_2(c):
    """two factors, in all of the documented layouts"""
    t = draw_t(c)
    lay = c.choice(['scalar', 'vec', 'grid', 'grid2', 'one', 'default'])
    v = {'scalar': (), 'vec': (2,), 'one': (1,), 'grid': (3, 2, 1),
         'grid2': (2, 1), 'default': ()}[lay]
    names = ('x0', 'theta', 'k', 'sigma')
    p = {}
    for n in names:
        x = c.rng.uniform(.15, 1.8, size=v)
        if n in ('x0', 'theta'):
            x = c.rng.normal(size=v)
        p[n] = x
    if lay in ('scalar', 'vec') and c.chance(.5):
        p = {n: p[n] for n in names if c.chance(.7)}
    rho = float(c.rng.uniform(-.95, .95))
    if lay == 'default':
        p = {}
    kw = dict(p)
    if c.chance(.7) or lay == 'grid':
        kw['rho'] = rho
    rho = kw.get('rho', 0.)
    if c.chance(.3):
        kw = {k: z.tolist() if isinstance(z, np.ndarray) else z
              for k, z in kw.items()}
    d = dict(x0=0., theta=0., k=1., sigma=1.)
    if lay in ('grid', 'grid2'):
        shape = v[:-2] + (1,)
    else:
        shape = ()
    f1, f2 = [], []
    for n in names:
        z = np.asarray(p.get(n, d[n]), float)
        if lay in ('grid', 'grid2'):
            a, b = z[..., 0, :], z[..., -1, :]
        else:
            z = np.broadcast_to(z, (2,)) if z.shape in ((), (1,)) else z
            a, b = z[0], z[1]
        f1.append(np.broadcast_to(a, shape))
        f2.append(np.broadcast_to(b, shape))
    mean = np.empty(shape)
    var = np.empty(shape)
    for i in np.ndindex(shape):
        a = [float(z[i]) for z in f1]
        b = [float(z[i]) for z in f2]
        m1, v1 = ou_law(t, *a)
        m2, v2 = ou_law(t, *b)
        K = a[2] + b[2]
        cov = linear_moments([[0, 0], [rho*a[3]*b[3], -K]], [1, 0], t)[1]
        mean[i], var[i] = m1 + m2, v1 + v2 + 2*cov
    c.sig(layout=lay, given=sorted(p), rho='rho' in kw,
          lst=any(isinstance(z, list) for z in kw.values()))
    c.note(t=t, kw=kw)
    c.close(sd.hw2f_mean(t, **kw), mean, 'hw2f-mean', rtol=1e-8, atol=1e-13)
    c.close(sd.hw2f_var(t, **kw), var, 'hw2f-var', rtol=1e-8)
    c.close(sd.hw2f_std(t, **kw), np.sqrt(var), 'hw2f-std', rtol=1e-8)
    x = float(c.rng.normal())
    S = np.sqrt(var)
    c.close(sd.hw2f_pdf(t, x, **kw),
            np.exp(-(x - mean)**2/2/var)/S/np.sqrt(2*np.pi), 'hw2f-pdf',
            rtol=1e-6, atol=1e-12)
    c.close(sd.hw2f_cdf(t, x, **kw),
            np.vectorize(ncdf)(x, mean, S), 'hw2f-cdf', rtol=1e-7,
            atol=1e-12)
    # times as an array
    tt = np.sort(c.rng.random(3))*3 + .1
    if shape == ():
        for f in (sd.hw2f_mean, sd.hw2f_var, sd.hw2f_std):
            c.close(f(tt, **kw), np.array([f(s, **kw) for s in tt]),
                    'hw2f-time-array', rtol=1e-12)
        for f in (sd.hw2f_pdf, sd.hw2f_cdf):
            c.close(f(tt, x, **kw), np.array([f(s, x, **kw) for s in tt]),
                    'hw2f-time-array', rtol=1e-12)


def rand_shape_args(c, names, full):
    """each argument with a shape that broadcasts to full"""
    out = {}
    for n in names:
        k = c.choice(['scalar', 'full', 'part', 'part', 'tail'])
        if k == 'scalar':
            s = ()
        elif k == 'full':
            s = full
        elif k == 'tail':
            s = full[c.int(0, len(full)):]
        else:
            s = tuple(1 if c.chance(.5) else m for m in full)
        out[n] = s
    return out


def draw_arr(c, family, k, s):
    return np.array([draw(c, family, k) for _ in
                     range(int(np.prod(s, dtype=int)))]).reshape(s)


@A01.section(2500)
def broadcasting(c):
    """arrays of arguments: one independent evaluation per element"""
    family = c.choice(list(STATS) + ['mjd', 'kou'])
    stats = STATS[family] + {
        'heston': ('log_chf',), 'mjd': ('log_chf',),
        'kou': ('log_chf',)}.get(family, ())
    stat = c.choice(stats)
    full = c.choice([(3,), (2, 3), (1,), (2, 1, 3), (4, 1), (0,)])
    names = [k for k in DEF[family] if c.chance(.7)]
    sh = rand_shape_args(c, names + ['t', 'x'], full)
    p = {k: draw_arr(c, family, k, sh[k]) for k in names}
    t = np.array([draw_t(c) for _ in range(int(np.prod(sh['t'])))]
                 ).reshape(sh['t'])
    two = stat in ('pdf', 'cdf') or stat.endswith('chf')
    x = np.abs(c.rng.normal(size=sh['x'])) + .1 if two else None
    # ordinary and extreme elements, side by side
    if c.chance(.3):
        for n, z in list(p.items()) + [('t', t)]:
            small = {'k': [1e-9, 1e-5, 1e-3], 't': [1e-6, 1e-3],
                     'sigma': [1e-4], 'xi': [1e-3], 'lam': [1e-6, 20.],
                     'mu': [0., 1e-9], 'r': [0.]}.get(n)
            if small and z.size and c.chance(.5):
                m = c.rng.random(z.shape) < c.choice([.3, .3, .7])
                z[m] = c.choice(small)
                c.ev('extreme_elements', int(m.sum()))
    used = [t] + list(p.values()) + ([x] if two else [])
    shape = np.broadcast(*used).shape
    # containers: arrays, read-only arrays, nested lists
    kind = c.choice(['array', 'list', 'readonly', 'fortran'])

    def wrap(z):
        if z.ndim == 0:
            return c.choice([float(z), z])
        if kind == 'list':
            return z.tolist()
        z = z.copy()
        if kind == 'readonly':
            z.flags.writeable = False
        if kind == 'fortran':
            z = np.asfortranarray(z)
        return z
    if kind == 'list' and 0 in full:
        kind = 'array'
    kw = {k: wrap(z) for k, z in p.items()}
    tw, xw = wrap(t), wrap(x) if two else None
    copies = {k: np.array(z) for k, z in kw.items()}
    f = fun(family, stat)
    args = (tw, xw) if two else (tw,)
    got = f(*args, **kw)
    c.sig(family=family, stat=stat, names=names, shape=shape, kind=kind)
    c.check(np.shape(got) == shape, 'broadcast-shape',
            f'{family}_{stat}: {np.shape(got)} != {shape}')
    want = np.empty(shape, complex if stat.endswith('chf') else float)
    B = {k: np.broadcast_to(z, shape) for k, z in p.items()}
    tb = np.broadcast_to(t, shape)
    xb = np.broadcast_to(x, shape) if two else None
    for i in np.ndindex(shape):
        a = (float(tb[i]), float(xb[i])) if two else (float(tb[i]),)
        want[i] = f(*a, **{k: float(z[i]) for k, z in B.items()})
    # (two roundings of a function with cancellations may differ)
    c.close(got, want, 'broadcast-values', f'{family}_{stat}', rtol=1e-9,
            atol=1e-12)
    for k, z in kw.items():
        c.check(np.array_equal(np.asarray(z), copies[k]),
                'inputs-untouched', k)
    # keyword variables
    nm = list(__import__('inspect').signature(f.__wrapped__).parameters)
    got2 = f(**dict(zip(nm, args)), **kw)
    c.equal(got2, got, 'keyword-variables')


@A01.section(1500)
def densities(c):
    """pdf, cdf and moments belong to the same law"""
    family = c.choice(['wiener', 'lognorm', 'oruh', 'hw1f', 'cir', 'hw2f'])
    t = float(c.rng.uniform(.1, 3))
    if family == 'hw2f':
        kw = dict(x0=c.rng.normal(size=2), theta=c.rng.normal(size=2),
                  k=c.rng.uniform(.2, 2, 2), sigma=c.rng.uniform(.2, 1, 2),
                  rho=float(c.rng.uniform(-.9, .9)))
    else:
        kw = {k: draw(c, family, k) for k in DEF[family]}
    if family == 'lognorm':
        kw['sigma'] = min(kw['sigma'], 1.)/math.sqrt(max(t, 1))
    if family == 'cir':
        # keep the density bounded near the origin
        kw['xi'] = min(kw['xi'], .9*math.sqrt(kw['k']*kw['theta']))
        t = max(t, .2)
    c.sig(family=family, t=round(t, 1))
    c.note(t=t, kw=kw)
    c.ev('quadratures')
    F = lambda s: fun(family, s)
    m = float(F('mean')(t, **kw))
    v = float(F('var')(t, **kw))
    s = float(F('std')(t, **kw))
    c.close(s*s, v, 'std-var', rtol=1e-12)
    if family == 'lognorm':
        # integrate in log coordinates
        lm = math.log(m) - .5*math.log1p(v/m/m)
        ls = math.sqrt(math.log1p(v/m/m))
        a, b = lm - 12*ls, lm + 12*ls
        pdf = lambda z: F('pdf')(t, np.exp(z), **kw)*np.exp(z)
        X = np.exp
    else:
        a, b = m - 12*s, m + 12*s
        if family == 'cir':
            a, b = 0., m + 30*s + 30*s*s/m
        pdf = lambda z: F('pdf')(t, z, **kw)
        X = lambda z: z
    c.check((np.asarray(pdf(np.linspace(a, b, 60))) >= 0).all(),
            'pdf-nonnegative')
    n = 6
    tol = dict(rtol=1e-7) if family != 'cir' else dict(rtol=2e-4)
    c.close(quad(pdf, a, b, n), 1., 'pdf-mass', family, **tol)
    c.close(quad(lambda z: X(z)*pdf(z), a, b, n), m, 'pdf-mean', family,
            atol=1e-7, **tol)
    c.close(quad(lambda z: (X(z) - m)**2*pdf(z), a, b, n), v, 'pdf-var',
            family, **tol)
    if family != 'cir':
        for w in c.rng.uniform(-3, 3, size=3):
            z = (lm + w*ls) if family == 'lognorm' else m + w*s
            c.close(float(F('cdf')(t, X(z), **kw)), quad(pdf, a, z, n),
                    'cdf-pdf', family, atol=1e-7)
        g = np.sort(X(np.linspace(a, b, 200)))
        cd = F('cdf')(t, g, **kw)
        c.check((np.diff(cd) >= 0).all() and cd[0] < 1e-9 and
                cd[-1] > 1 - 1e-9 and (cd >= 0).all() and (cd <= 1).all(),
                'cdf-monotone')
    if family in ('wiener', 'lognorm'):
        chf = F('chf' if family == 'wiener' else 'log_chf')
        sc = s if family == 'wiener' else ls
        for u in c.rng.normal(size=2)/sc:
            want = quad(lambda z: np.exp(1j*u*z)*pdf(z), a, b, n)
            c.close(complex(chf(t, u, **kw)), complex(want), 'chf-pdf',
                    family, atol=1e-7)
    if family in ('lognorm', 'cir'):
        # no mass out of the support
        z = -np.sort(c.rng.exponential(size=c.int(1, 4)))*max(m, s)
        c.equal(np.asarray(F('pdf')(t, z, **kw)), 0*z, 'pdf-outside',
                family)
        if family == 'lognorm':
            c.equal(np.asarray(F('cdf')(t, z, **kw)), 0*z, 'cdf-outside',
                    family)


@A01.section(600)
def long_times(c):
    """times far beyond the relaxation time of mean reverting processes"""
    family = c.choice(['oruh', 'hw1f', 'cir', 'heston', 'heston', 'heston'])
    given = {k: draw(c, family, k) for k in DEF[family] if c.chance(.8)}
    p = {**DEF[family], **given}
    t = float(c.choice([c.rng.uniform(5, 40), c.rng.uniform(10, 120),
                        c.rng.uniform(100, 300)]))/p['k']
    stat = c.choice([s for s in STATS[family]
                     if s.endswith(('mean', 'var', 'std'))])
    c.sig(family=family, stat=stat, given=sorted(given),
          kt=round(math.log(t*p['k']), 1))
    c.note(t=t, given=given)
    want = ref_value(family, stat, t, None, p)
    shape = c.choice([(), (), (3,), (2, 1)])
    got = np.asarray(fun(family, stat)(np.full(shape, t), **given))
    c.close(got.astype(float), np.full(shape, float(want)),
            f'{family}-{stat}', f't={t} {given}', rtol=1e-8, atol=1e-10)
    c.ev('values_compared')


@A01.section(1200)
def markov(c):
    """evolving to time s and then for a time t is evolving to s + t"""
    family = c.choice(['wiener', 'lognorm', 'oruh', 'hw1f', 'cir', 'mjd',
                       'kou', 'heston'])
    s, t = c.rng.uniform(.1, 2, size=2)
    kw = {k: draw(c, family, k) for k in DEF[family]}
    x0 = kw.pop('x0')
    c.sig(family=family, s=round(s, 1), t=round(t, 1))
    c.note(s=s, t=t, kw=kw, x0=x0)
    F = lambda st: fun(family, st)
    if family == 'heston':
        y0 = kw.pop('y0')
        y1 = float(sd.cir_mean(s, x0=y0, theta=kw['theta'], k=kw['k'],
                               xi=kw['xi']))
        a = float(sd.heston_log_mean(s + t, x0=x0, y0=y0, **kw))
        b = float(sd.heston_log_mean(s, x0=x0, y0=y0, **kw))
        d = float(sd.heston_log_mean(t, x0=x0, y0=y1, **kw)) - math.log(x0)
        c.close(a, b + d, 'markov-mean', family, rtol=1e-7, atol=1e-8)
        return
    m1 = float(F('mean')(s, x0=x0, **kw))
    c.close(float(F('mean')(t, x0=m1, **kw)),
            float(F('mean')(s + t, x0=x0, **kw)), 'markov-mean', family,
            rtol=1e-9, atol=1e-9)
    if family in ('mjd', 'kou'):
        return
    v1 = float(F('var')(s, x0=x0, **kw))
    tot = float(F('var')(s + t, x0=x0, **kw))
    # total variance: E[var(t|X)] + var[mean(t|X)]
    #  (var(t|x) is a polynomial in x of degree <= 2, mean is linear)
    g = lambda x: float(F('var')(t, x0=x, **kw))
    q0, q1, q2 = g(1.), g(2.), g(3.)
    B2 = (q2 - 2*q1 + q0)/2
    B1 = q1 - q0 - 3*B2
    B0 = q0 - B1 - B2
    slope = float(F('mean')(t, x0=2., **kw)) - \
        float(F('mean')(t, x0=1., **kw))
    ev = B0 + B1*m1 + B2*(v1 + m1*m1)
    c.close(ev + slope**2*v1, tot, 'markov-var', family, rtol=1e-8,
            atol=1e-9)


# =====================================================================
A03 = new(
    'A03', 'characteristic functions and densities of jump-diffusion and '
    'stochastic volatility laws, against Poisson mixtures, numerically '
    'integrated Riccati equations, moments and simulated values; '
    'non-trivial: distinct (family, parameters, arguments)',
    required=['values_compared', 'statistical_tests'])
CHF = dict(wiener='chf', lognorm='log_chf', heston='log_chf',
           mjd='log_chf', kou='log_chf')


@A03.section(2500)
def chf_reference(c):
    family = c.choice(['mjd', 'kou', 'heston', 'heston'])
    t = draw_t(c)
    given = {k: draw(c, family, k) for k in DEF[family] if c.chance(.8)}
    p = {**DEF[family], **given}
    u = c.rng.normal(size=4)*c.choice([.3, 1, 4])
    c.sig(family=family, given=sorted(given), t=round(t, 1))
    c.note(t=t, u=u, given=given)
    got = fun(family, 'log_chf')(t, u, **given)
    if family == 'heston':
        want = heston_chf(t, u, **p)
    else:
        law = make(family, t, p)
        want = np.array([law.log_chf(z) for z in u])
    c.close(got, want, f'{family}-log_chf', rtol=1e-7, atol=1e-8)


@A03.section(2500)
def chf_identities(c):
    """properties of any characteristic function"""
    family = c.choice(list(CHF))
    f = fun(family, CHF[family])
    t = draw_t(c)
    kw = {k: draw(c, family, k) for k in DEF[family] if c.chance(.8)}
    p = {**DEF[family], **kw}
    u = c.rng.normal(size=5)*c.choice([.1, 1, 5])
    c.sig(family=family, given=sorted(kw), t=round(t, 1))
    c.note(t=t, kw=kw)
    z = f(t, u, **kw)
    c.check(z.dtype == complex and z.shape == u.shape, 'chf-type')
    c.check((np.abs(z) <= 1 + 1e-9).all(), 'chf-bounded', family)
    c.close(f(t, -u, **kw), np.conj(z), 'chf-hermitian', family, atol=1e-12)
    c.close(complex(f(t, 0., **kw)), 1 + 0j, 'chf-zero', family,
            atol=1e-12)
    # exponential moment: the martingale or mean property
    if family != 'wiener':
        m = complex(f(t, -1j, **kw))
        if family == 'heston':
            want = p['x0']*math.exp(p['mu']*t)
        else:
            want = float(fun(family, 'mean')(t, **kw))
        # (removable singularity if the volatility drift changes sign)
        if want < 1e8 and not (family == 'heston' and p['rho']*p['sigma']*
                               p['xi'] > .95*p['k']):
            c.close(m, complex(want), 'chf-exponential-moment', family,
                    rtol=1e-8)
    # derivatives at zero: moments
    if family in ('wiener', 'heston', 'lognorm'):
        if family == 'wiener':
            m, v = (float(fun(family, s)(t, **kw)) for s in ('mean', 'var'))
        elif family == 'heston':
            m, v = heston_moments(t, **p)
        else:
            m = math.log(p['x0']) + (p['mu'] - p['sigma']**2/2)*t
            v = p['sigma']**2*t
    else:
        m, v = make(family, t, p).moments()
    h = 2e-3/math.sqrt(v + 1e-3)
    L = np.log(f(t, np.array([h, 2*h]), **kw)*np.exp(
        -1j*np.array([h, 2*h])*m))
    # even and odd parts of the cumulant expansion
    d1 = (8*L[0].imag - L[1].imag)/(6*h)
    d2 = -(16*L[0].real - L[1].real)/(6*h*h)
    c.check(abs(d1) < 1e-4*math.sqrt(v) + 1e-6, 'chf-mean', family, d1=d1)
    c.close(d2, v, 'chf-var', family, rtol=2e-3, atol=1e-5)


@A03.section(250)
def inverted_pdf(c):
    """numerically inverted densities"""
    family = c.choice(['mjd', 'kou', 'heston'])
    t = float(c.rng.uniform(.4, 2))
    kw = {k: draw(c, family, k) for k in DEF[family] if c.chance(.8)}
    if 'sigma' in kw:
        kw['sigma'] = max(kw['sigma'], .4)
    if family == 'heston':
        kw.pop('xi', None)
        kw['xi'] = float(c.rng.uniform(.2, .8))
        kw['rho'] = float(c.rng.uniform(-.7, .7))
        kw['theta'] = float(c.rng.uniform(.6, 1.5))
        kw['y0'] = float(c.rng.uniform(.6, 1.5))
    if family == 'kou':
        kw['a'] = float(c.rng.uniform(.1, .5))
        kw['b'] = float(c.rng.uniform(.1, .5))
    scale = None
    if c.chance(.5):
        # narrow and wide densities
        scale = float(10**c.rng.uniform(-3.5, 1))
        kw['sigma'] = scale/math.sqrt(t)
        for j in ('a', 'b') if family != 'heston' else ():
            kw[j] = min(scale, 1.)*kw.get(j, DEF[family][j])
    p = {**DEF[family], **kw}
    if family == 'heston':
        m, v = heston_moments(t, **p)
        s = math.sqrt(v)
        x = m + s*c.rng.uniform(-2.5, 2.5, size=3)
        h = math.pi/(60*s)
        u = np.arange(0, 14/min(s, .5*p['sigma']*math.sqrt(t)), h)
        phi = heston_chf(t, u, **p)
        E = np.real(np.exp(-1j*np.outer(x, u))*phi)
        want = h/np.pi*(E.sum(1) - E[:, 0]/2)
    else:
        law = make(family, t, p)
        m, v = law.moments()
        s = math.sqrt(v)
        x = m + s*c.rng.uniform(-2.5, 2.5, size=3)
        want = np.array([law.log_pdf(z) for z in x])
    c.sig(family=family, given=sorted(kw), t=round(t, 1),
          scale=scale and round(math.log10(scale)))
    c.note(t=t, x=x, kw=kw)
    f = fun(family, 'log_pdf')
    c.close(f(t, x, **kw), want, f'{family}-log_pdf', atol=2e-5/s,
            rtol=1e-5)
    # one scalar argument, the other of any shape
    got = f(t, x.reshape(3, 1), **kw)
    c.close(got, want.reshape(3, 1), 'log_pdf-shape', atol=2e-5/s, rtol=1e-5)
    one = np.asarray(f(t, float(x[0]), **kw))
    c.close(one, want[0], 'log_pdf-scalar', atol=2e-5/s, rtol=1e-5)
    sh = c.choice([(2,), (2,), (1,), (3,), (5,), (2, 2), (3, 1), (1, 4)])
    tt = t*np.linspace(1, 1.2, int(np.prod(sh))).reshape(sh)
    two = f(tt, float(x[0]), **kw)
    c.check(np.shape(two) == sh, 'log_pdf-shape')
    c.close(two.flat[0], want[0], 'log_pdf-times', atol=2e-5/s, rtol=1e-5)
    j = c.int(0, tt.size - 1)
    c.close(two.flat[j], float(f(float(tt.flat[j]), float(x[0]), **kw)),
            'log_pdf-times', atol=1e-9)


SIM = dict(wiener='wiener_process', lognorm='lognorm_process',
           mjd='merton_jumpdiff_process', kou='kou_jumpdiff_process')


@A03.section(250)
def simulated(c):
    """characteristic functions against realized processes (the Euler
    scheme is exact in law for these)"""
    family = c.choice(list(SIM))
    t = float(c.rng.uniform(.2, 2))
    kw = {k: draw(c, family, k) for k in DEF[family] if c.chance(.8)}
    n = 6000
    P = getattr(sd, SIM[family])(
        paths=n, rng=np.random.default_rng(int(c.sub_rng(1).integers(2**40))),
        steps=c.choice([None, 3]), **kw)
    x = P([0., t/3, t])
    L = x.x[-1] if family == 'wiener' else np.log(x.x[-1])
    c.sig(family=family, given=sorted(kw))
    c.note(t=t, kw=kw)
    s = np.std(L) + 1e-3
    for u in c.rng.normal(size=3)/s:
        phi = complex(fun(family, CHF[family])(t, u, **kw))
        e = np.exp(1j*u*L)
        c.zmean(e.real, phi.real, 1., 'simulated-chf', family)
        c.zmean(e.imag, phi.imag, 1., 'simulated-chf', family)


# =====================================================================
A02 = new(
    'A02', 'option values, deltas and coefficients at random and limiting '
    'market parameters and argument shapes, against a scalar evaluation '
    'of the definition, quadrature of the payoff, no arbitrage relations '
    'and simulated payoffs; non-trivial: distinct (kind, moneyness, '
    'limits, shapes)', required=['values_compared', 'limits', 'quadratures'])
BS = ('bscall', 'bsput', 'bscall_delta', 'bsput_delta')


def bs_ref(name, k, t, x0=1., r=0., q=0., sigma=1.):
    F = x0*math.exp(-q*t)
    K = k*math.exp(-r*t)
    B = sigma*math.sqrt(t)
    if B == 0:
        d = .0 if F == K else math.inf*(1 if F > K else -1)
        d1 = d2 = d
    else:
        d1 = (math.log(x0/k) + (r - q + sigma**2/2)*t)/B
        d2 = d1 - B
    N = lambda z: .5*math.erfc(-z/math.sqrt(2))
    if name == 'bsd1d2':
        return d1, d2
    if name == 'bscall':
        return F*N(d1) - K*N(d2)
    if name == 'bsput':
        return K*N(-d2) - F*N(-d1)
    if name == 'bscall_delta':
        return math.exp(-q*t)*N(d1)
    return -math.exp(-q*t)*N(-d1)


def market(c, limits=False):
    p = dict(k=float(c.rng.uniform(.3, 3)), t=float(c.rng.uniform(.05, 4)),
             x0=float(c.rng.uniform(.3, 3)), r=float(c.rng.normal()*.1),
             q=float(c.rng.normal()*.1), sigma=float(c.rng.uniform(.05, 1.2)))
    if limits:
        lim = c.choice(['t', 'sigma', 'both', 'atm', 'atm-t', 'atm-sigma',
                        'far', 'small', 'small'])
        if 't' in lim.split('-') or lim == 'both':
            p['t'] = 0.
        if 'sigma' in lim or lim == 'both':
            p['sigma'] = 0.
        if 'atm' in lim:
            p['x0'] = p['k']
        if lim == 'atm-sigma':
            p['r'] = p['q'] = 0.
        if lim == 'far':
            p['k'] = p['x0']*c.choice([1e-6, 1e6])
        if lim == 'small':
            # small time or volatility, values close to the money
            if c.chance(.5):
                p['t'] = float(10**c.rng.uniform(-16, -2))
            else:
                p['sigma'] = float(10**c.rng.uniform(-8, -2))
            p['k'] = p['x0']*math.exp(
                (p['r'] - p['q'])*p['t'] + p['sigma']*math.sqrt(p['t']) *
                c.choice([0., float(c.rng.normal()), .5*p['sigma']*math.sqrt(
                    p['t'])]))
            if c.chance(.3):
                p['r'] = p['q'] = 0.
                p['k'] = p['x0']
        p['lim'] = lim
    return p


@A02.section(4000)
def options(c):
    lim = c.chance(.35)
    p = market(c, lim)
    which = p.pop('lim', None)
    k, t = p.pop('k'), p.pop('t')
    drop = {z for z in p if c.chance(.15) and not which}
    given = {z: w for z, w in p.items() if z not in drop}
    if c.chance(.1) and which is None:
        k, t = c.int(1, 3), c.int(1, 3)
        given = {z: c.int(1, 2) for z in given}
    c.sig(lim=which, given=sorted(given), m=round(
        math.log(k/given.get('x0', 1.)), 1) if not which else None,
        ints=isinstance(k, int))
    c.note(k=k, t=t, **given)
    if which:
        c.ev('limits')
    old = np.geterr()
    S = {n: np.asarray(getattr(sd, n)(k, t, **given)) for n in BS}
    d1, d2 = sd.bsd1d2(k, t, **given)
    c.check(np.geterr() == old, 'errstate')
    sc = max(k, given.get('x0', 1.))
    # accuracy of d1, d2
    B = given.get('sigma', 1.)*math.sqrt(t)
    eps = 1e-12 + (1e-14/B if which == 'small' else 0.)
    for n in BS:
        c.check(S[n].shape == (), 'scalar-shape', n)
        c.close(S[n].astype(float), float(bs_ref(n, k, t, **given)), n,
                f'{k} {t} {given}', rtol=1e-9,
                atol=eps if 'delta' in n else 1e-12*sc)
    e1, e2 = bs_ref('bsd1d2', k, t, **given)
    if which != 'small':
        # small values, e.g. of options far out of the money, are accurate
        # with respect to the terms they are made of
        g = [given.get(z, d) for z, d in (('x0', 1.), ('r', 0.), ('q', 0.))]
        f0, k0 = g[0]*math.exp(-g[2]*t), k*math.exp(-g[1]*t)
        for n, s in (('bscall', 1), ('bsput', -1)):
            e = [f0*ncdf(s*e1), k0*ncdf(s*e2)]
            c.close(float(S[n]), s*(e[0] - e[1]), n + '-small',
                    f'{k} {t} {given}', rtol=0., atol=1e-9*sum(e) + 1e-290)
    c.close(float(d1), e1, 'bsd1d2', rtol=1e-9, atol=eps)
    c.close(float(d2), e2, 'bsd1d2', rtol=1e-9, atol=eps)
    # no arbitrage
    x0, r, q, sg = (given.get(z, d) for z, d in
                    (('x0', 1.), ('r', 0.), ('q', 0.), ('sigma', 1.)))
    F, K = x0*math.exp(-q*t), k*math.exp(-r*t)
    c.close(float(S['bscall'] - S['bsput']), F - K, 'parity', atol=1e-12*sc)
    c.close(float(S['bscall_delta'] - S['bsput_delta']), math.exp(-q*t),
            'delta-parity', atol=1e-12)
    eps, eps2 = 1e-12*sc, eps
    c.check(max(F - K, 0) - eps <= S['bscall'] <= F + eps, 'call-bounds')
    c.check(max(K - F, 0) - eps <= S['bsput'] <= K + eps, 'put-bounds')
    # scaling of prices
    h = c.choice([2., .5, 8.])
    g2 = {**given, 'x0': h*x0}
    for n in BS:
        w = h if 'delta' not in n else 1.
        c.close(float(getattr(sd, n)(h*k, t, **g2)), w*float(S[n]),
                'homogeneity', n, rtol=1e-9,
                atol=1e-12*sc*h if w == h else eps2)
    if not which:
        # delta: sensitivity to the initial value
        e = 1e-4*x0
        up, dn = {**given, 'x0': x0 + e}, {**given, 'x0': x0 - e}
        for n in ('bscall', 'bsput'):
            f = getattr(sd, n)
            d = (float(f(k, t, **up)) - float(f(k, t, **dn)))/(2*e)
            gam = 1/(x0*sg*math.sqrt(t))
            c.check(abs(d - S[n + '_delta']) < 1e-6*max(1, gam**2)*max(
                1, x0*x0), 'delta', n, d=d, got=S[n + '_delta'])


@A02.section(1200)
def expectation(c):
    """discounted expected payoff"""
    p = market(c)
    k, t = p.pop('k'), p.pop('t')
    c.sig(m=round(math.log(k/p['x0']), 1), t=round(t, 1),
          s=round(p['sigma'], 1))
    c.note(k=k, t=t, **p)
    c.ev('quadratures')
    s = p['sigma']*math.sqrt(t)
    m = math.log(p['x0']) + (p['r'] - p['q'])*t - s*s/2
    z0 = math.log(k)
    pdf = lambda z: sd.lognorm_pdf(t, np.exp(z), x0=p['x0'],
                                   mu=p['r'] - p['q'],
                                   sigma=p['sigma'])*np.exp(z)
    lo, hi = m - 12*s, m + 14*s
    z0 = min(max(z0, lo), hi)
    D = math.exp(-p['r']*t)
    call = D*quad(lambda z: (np.exp(z) - k)*pdf(z), z0, hi, 6)
    put = D*quad(lambda z: (k - np.exp(z))*pdf(z), lo, z0, 6)
    tol = dict(rtol=1e-7, atol=1e-9*max(k, p['x0']))
    c.close(float(sd.bscall(k, t, **p)), float(call), 'call-expectation',
            **tol)
    c.close(float(sd.bsput(k, t, **p)), float(put), 'put-expectation', **tol)
    # probability of exercise
    c.close(float(sd.lognorm_cdf(t, k, x0=p['x0'], mu=p['r'] - p['q'],
                                 sigma=p['sigma'])),
            ncdf(-float(sd.bsd1d2(k, t, **p)[1])), 'exercise-probability',
            atol=1e-10)


@A02.section(1200)
def shapes(c):
    """arrays, lists and mixed arguments: one evaluation per element"""
    full = c.choice([(3,), (2, 3), (1,), (2, 1, 3), (4, 1)])
    names = ['k', 't'] + [z for z in ('x0', 'r', 'q', 'sigma')
                          if c.chance(.6)]
    sh = rand_shape_args(c, names, full)
    kind = c.choice(['array', 'list', 'readonly', 'tuple'])
    vals, kw = {}, {}
    ints = c.chance(.2)
    lims = c.chance(.3)
    for n in names:
        z = np.array([market(c)[n] for _ in range(
            int(np.prod(sh[n], dtype=int)))]).reshape(sh[n])
        if lims and n in ('t', 'sigma'):
            z = z*(c.rng.random(z.shape) < .6)
        if ints:
            z = c.rng.integers(0 if n in ('r', 'q') else 1, 3, size=sh[n])
        vals[n] = np.asarray(z)
        if vals[n].ndim == 0:
            kw[n] = vals[n].item()
        elif kind == 'list':
            kw[n] = vals[n].tolist()
        elif kind == 'tuple':
            kw[n] = tuple(vals[n])
        else:
            kw[n] = vals[n].copy()
            kw[n].flags.writeable = kind != 'readonly'
    shape = np.broadcast(*vals.values()).shape if len(vals) else ()
    B = {n: np.broadcast_to(z, shape) for n, z in vals.items()}
    k, t = kw.pop('k'), kw.pop('t')
    c.sig(names=names, shape=shape, kind=kind, ints=ints, lims=lims)
    if lims:
        c.ev('limits')
    for n in BS:
        got = getattr(sd, n)(k, t, **kw)
        want = np.empty(shape)
        for i in np.ndindex(shape):
            want[i] = bs_ref(n, **{z: float(w[i]) for z, w in B.items()})
        c.close(np.asarray(got, float), want, 'array-' + n, kind, rtol=1e-9,
                atol=1e-11)
    d1, d2 = sd.bsd1d2(k, t, **kw)
    for j, d in enumerate((d1, d2)):
        want = np.empty(shape)
        for i in np.ndindex(shape):
            want[i] = bs_ref('bsd1d2', **{z: float(w[i])
                                          for z, w in B.items()})[j]
        c.close(np.asarray(d, float), want, 'array-bsd1d2', kind, rtol=1e-9,
                atol=1e-9)
    for n, z in kw.items():
        c.check(np.array_equal(np.asarray(z), vals[n]), 'inputs-untouched')


@A02.section(400)
def monotone(c):
    """value curves in strike, volatility and initial value"""
    p = market(c)
    k, t = p.pop('k'), p.pop('t')
    c.sig(t=round(t, 1), s=round(p['sigma'], 1), m=round(k/p['x0'], 1))
    eps = 1e-11
    K = np.linspace(.1, 5, 60)
    C, P = sd.bscall(K, t, **p), sd.bsput(K, t, **p)
    c.check((np.diff(C) <= eps).all(), 'call-strike')
    c.check((np.diff(P) >= -eps).all(), 'put-strike')
    c.check((np.diff(C, 2) >= -eps).all() and
            (np.diff(P, 2) >= -eps).all(), 'strike-convexity')
    q = {z: w for z, w in p.items() if z != 'sigma'}
    S = np.linspace(0, 3, 60)
    for f in (sd.bscall, sd.bsput):
        v = f(k, t, sigma=S, **q)
        c.check((np.diff(v) >= -eps).all(), 'volatility-monotone')
    q = {z: w for z, w in p.items() if z != 'x0'}
    X = np.linspace(.1, 5, 60)
    c.check((np.diff(sd.bscall(k, t, x0=X, **q)) >= -eps).all(),
            'call-initial-value')
    d = sd.bscall_delta(k, t, x0=X, **q)
    c.check((np.diff(d) >= -eps).all() and (d >= 0).all() and
            (d <= math.exp(-p['q']*t) + eps).all(), 'delta-range')


@A02.section(60)
def payoffs(c):
    """simulated payoffs (lognormal process, exact in law)"""
    p = market(c)
    p['sigma'] = min(max(p['sigma'], .2), .6)
    k, t = p['x0']*float(c.rng.uniform(.8, 1.25)), max(p['t'], .5)
    t = min(t, 2.)
    n = 8000
    x = sd.lognorm_process(
        paths=n, x0=p['x0'], mu=p['r'] - p['q'], sigma=p['sigma'],
        rng=np.random.default_rng(int(c.sub_rng(1).integers(2**40))))(
        [0., t]).x[-1]
    D = math.exp(-p['r']*t)
    kw = dict(x0=p['x0'], r=p['r'], q=p['q'], sigma=p['sigma'])
    c.sig(m=round(math.log(k/p['x0']), 1), t=round(t, 1))
    ex = ncdf(bs_ref('bsd1d2', k, t, **kw)[1])
    if not .03 < ex < .97:
        return
    for f, pay in ((sd.bscall, np.maximum(x - k, 0)),
                   (sd.bsput, np.maximum(k - x, 0))):
        c.zmean(D*pay, float(f(k, t, **kw)), 1.1*D*pay.std(), 'simulated-payoff',
                f.__name__, slack=50*D*pay.max()/n)
