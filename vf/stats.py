"""Statistical monitors (false alarm probability ~1e-11 per statistic)."""
import numpy as np
import scipy.stats

PMIN = 1e-11


def iid_normal(c, z, mech, msg='', unique=True):
    """z: array of supposedly independent standard normal variates;
    lag correlations are tested along each axis"""
    z = np.asarray(z, float)
    c.check(np.isfinite(z).all(), mech + ':finite', msg)
    f = z.ravel()
    n = f.size
    c.zmean(f, 0., 1., mech + ':mean', msg)
    if n >= 1000:
        c.zmean(f**2, 1., np.sqrt(2.), mech + ':var', msg)
    if n >= 20000:
        c.zmean(f**3, 0., np.sqrt(15.), mech + ':skew', msg,
                slack=1./np.sqrt(n))
        c.zmean(f**4, 3., np.sqrt(96.), mech + ':kurt', msg,
                slack=8./np.sqrt(n))
    if n >= 50:
        p = scipy.stats.kstest(f[:20000], 'norm').pvalue
        c.ev('ks_tests')
        c.check(p > PMIN, mech + ':distribution', f'{msg} KS p={p}')
    if unique and z.dtype == float:
        u = np.unique(f)
        c.ev('uniqueness_checked', n)
        c.check(u.size == n, mech + ':duplicates',
                f'{msg} {n - u.size} repeated variates out of {n}')
    for ax in range(z.ndim):
        m = z.shape[ax]
        if m < 2:
            continue
        a = np.moveaxis(z, ax, 0)
        for lag in {1, m//2, m - 1}:
            if lag < 1:
                continue
            pr = (a[lag:]*a[:-lag]).ravel()
            if pr.size >= 1000:
                # lagged products are uncorrelated with unit variance
                c.zmean(pr, 0., 1., mech + ':independence',
                        f'{msg} axis {ax} lag {lag}',
                        slack=3./np.sqrt(pr.size))


def poisson_law(c, k, mu, mech, msg=''):
    """k: array of independent Poisson variates with mean mu (scalar)"""
    k = np.asarray(k)
    f = k.ravel().astype(float)
    n = f.size
    c.check(np.isfinite(f).all() and (f >= 0).all() and
            (f == np.rint(f)).all(), mech + ':support', msg)
    if mu == 0:
        c.check((f == 0).all(), mech + ':zero-intensity', msg)
        return
    slack = 10./n
    c.zmean(f, mu, np.sqrt(mu), mech + ':mean', msg, slack=slack)
    if n >= 2000:
        v = (f - mu)**2
        c.zmean(v, mu, np.sqrt(mu + 2*mu*mu), mech + ':var', msg,
                slack=slack + 3*np.sqrt(mu + 2*mu*mu)/np.sqrt(n))
    # goodness of fit, on cells with enough expected mass
    lo = int(max(0, np.floor(mu - 4*np.sqrt(mu))))
    hi = int(np.ceil(mu + 4*np.sqrt(mu) + 2))
    if n >= 500:
        if hi - lo < 60:
            cells = np.arange(lo, hi + 1)
            e = n*scipy.stats.poisson.pmf(cells, mu)
            o = np.array([(f == x).sum() for x in cells])
        else:
            edges = np.unique(scipy.stats.poisson.ppf(
                np.arange(1, 25)/25, mu))
            e = n*np.diff(scipy.stats.poisson.cdf(edges, mu))
            o = np.histogram(f, np.append(edges + .5, np.inf))[0][:-1]
        ok = e > 10
        e, o = e[ok], o[ok]
        if e.size >= 2:
            chi2 = ((o - e)**2/e).sum() + \
                (n - o.sum() - (n - e.sum()))**2/max(n - e.sum(), 10)
            p = scipy.stats.chi2.sf(chi2, e.size + 1)
            c.ev('chi2_tests')
            c.check(p > PMIN, mech + ':distribution',
                    f'{msg} chi2={chi2} p={p} mu={mu}')


def uncorrelated(c, a, b, mech, msg=''):
    """a, b: samples, independent by hypothesis (any distribution with
    light tails): standardized product moment"""
    a = np.asarray(a, float).ravel()
    b = np.asarray(b, float).ravel()
    n = a.size
    if np.ptp(a) == 0 or np.ptp(b) == 0:
        return
    pr = (a - a.mean())*(b - b.mean())
    # the sample std of the products is too small if they are rarely large
    s = max(pr.std(), a.std()*b.std())
    c.ev('statistical_tests')
    c.ev('assertions')
    # allowance for rare events (skewed products)
    slack = 10*np.abs(pr).max()/n
    c.check(abs(pr.mean()) <= 9*s/np.sqrt(n) + slack, mech,
            f'{msg} correlation {pr.mean()} std {s} n={n}')


def moments(c, x, mean, var, fourth_sd, mech, msg=''):
    """sample mean and variance against exact values;
    fourth_sd: std of (x-mean)**2"""
    x = np.asarray(x, float).ravel()
    n = x.size
    sd = np.sqrt(var)
    c.zmean(x, mean, sd, mech + ':mean', msg, slack=10*sd/n)
    c.zmean((x - mean)**2, var, fourth_sd, mech + ':var', msg,
            slack=4*fourth_sd/np.sqrt(n))
