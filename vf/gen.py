"""Workload generators shared by the checks."""
import numpy as np


def partial_domain(c, f, at=1.):
    """a function of time undefined at a time never needed"""
    exc = c.choice([ZeroDivisionError, KeyError, ValueError, IndexError,
                    TypeError, RuntimeError, AssertionError,
                    FloatingPointError, NotImplementedError])

    def g(t):
        if np.ndim(t) == 0 and t == at:
            raise exc('out of the domain of definition')
        return f(t)
    return g


def dims(c, maxdim=3, hi=4):
    """A values shape: (), (k,), (h, k), ..."""
    nd = c.choice([0, 0, 1, 1, 1, 2, 2, 3][:5 + maxdim])
    return tuple(c.int(1, hi) for _ in range(nd))


def npaths(c, big=400):
    return c.choice([1, 1, 2, 3, 5, 8, 17, 40, c.int(1, big)])


def ntimes(c, big=200, lo=1):
    return max(lo, c.choice([1, 2, 3, 4, 7, 12, 31, c.int(2, big)]))


def timeline(c, n=None, dtype=None):
    """A strictly increasing timeline with n points."""
    r = c.rng
    n = ntimes(c) if n is None else n
    kind = c.choice(['unif', 'rand', 'rand', 'neg', 'offset', 'int', 'tiny',
                     'geom', 'cross', 'f32', 'micro', 'long'])
    if dtype is not None:
        kind = dtype
    if kind == 'int':
        t = np.cumsum(r.integers(1, 4, size=n)) + int(r.integers(-9, 9))
        return t.astype(c.choice([np.int64, np.int32]))
    gaps = 0.02 + r.random(n)
    t = np.cumsum(gaps)
    if kind == 'unif':
        t = np.arange(n)*0.25
    elif kind == 'neg':
        t = t - t[-1] - 0.5
    elif kind == 'offset':
        t = t + c.choice([100., -1000., 2000.])
    elif kind == 'tiny':
        t = t*1e-4
    elif kind == 'micro':
        t = t*c.choice([1e-9, 1e-12]) + c.choice([0., 0., -1e-10])
    elif kind == 'long':
        t = t*c.choice([1e6, 1e9])
    elif kind == 'geom':
        t = (t/t[-1])**2*5 + 0.1
    elif kind == 'cross':
        t = t - t[n//2]
    elif kind == 'f32':
        t32 = t.astype(np.float32)
        return t32 if np.all(np.diff(t32) > 0) else t
    return t


def layout(c, x):
    """Same values, different memory layout / writability / container."""
    k = c.choice(['c', 'c', 'f', 'strided', 'neg', 'readonly'])
    if x.ndim == 0:
        return x
    if k == 'f':
        return np.asfortranarray(x)
    if k == 'strided' and x.ndim:
        y = np.empty(x.shape[:-1] + (2*x.shape[-1],), x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if k == 'neg' and x.ndim:
        return x[::-1].copy()[::-1]
    if k == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    return x


def values(c, shape, dtype=None, positive=False):
    r = c.rng
    dtype = dtype or c.choice(['f8', 'f8', 'f8', 'f4', 'i8', 'c16'])
    if dtype == 'i8':
        x = r.integers(1 if positive else -20, 21, size=shape)
    else:
        x = r.normal(size=shape)
        if c.chance(0.15):
            x = x*10.**c.int(-6, 6)
        if dtype == 'f8' and c.chance(0.05):
            x = x + 10.**c.int(3, 7)    # narrow distributions
        if positive:
            x = np.abs(x) + 0.1
        if c.chance(0.1):
            x = np.round(x, 1)    # ties
        x = x.astype(dtype)
        if dtype == 'c16':
            x = x + 1j*r.normal(size=shape)
    return np.asarray(x)


def proc(c, sd, n=None, vshape=None, paths=None, dtype=None,
         positive=False, t=None, lay=True):
    """A process and private copies (t, x) of its content."""
    if paths is None and t is None and n is None and c.chance(.006):
        # a few large samples
        n, paths = c.int(1, 2), c.choice([4099, 10007, 33000, 70001])
        vshape = c.choice([(), (), (2,)]) if vshape is None else vshape
    t = timeline(c, n) if t is None else np.asarray(t)
    vshape = dims(c) if vshape is None else vshape
    paths = npaths(c, 60) if paths is None else paths
    x = values(c, t.shape + vshape + (paths,), dtype, positive)
    xx = layout(c, x) if lay else x
    p = sd.process(t, x=xx)
    return p, t.copy(), x.copy()


def tol(dtype):
    k = np.dtype(dtype)
    if k == np.float32 or k == np.complex64:
        return 2e-5
    if k == np.float16:
        return 2e-2
    return 1e-9
