"""Monitors for montecarlo cumulated statistics (M01-M03)."""
import warnings

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.special
import sdepy as sd
from sdepy import montecarlo

from ..core import Check
from .. import gen

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


def sample(c, vshape, n, kind, offset=0., wide=1.):
    r = c.rng
    sh = vshape + (n,)
    if kind == 'int':
        return r.integers(-9, 10, size=sh)
    if kind == 'uint':
        return r.integers(0, 10, size=sh).astype(np.uint32)
    if kind == 'bool':
        return r.random(sh) < .4
    if kind == 'skewed':
        x = r.exponential(size=sh)*wide + offset
    elif kind == 'ties':
        x = np.round(r.normal(size=sh), 1)*wide + offset
    else:
        x = r.normal(size=sh)*wide + offset
    return x.astype(np.float32) if kind == 'f4' else x


KINDS = ['norm', 'norm', 'skewed', 'ties', 'int', 'f4', 'bool', 'uint']


def present(c, x):
    """the same sample, with the paths axis moved elsewhere: (obj, axis)"""
    nd = x.ndim
    ax = c.int(-nd, nd - 1) if c.chance(.6) else -1
    y = np.moveaxis(x, -1, ax)
    k = c.choice(['array', 'array', 'list', 'copy', 'process'])
    if k == 'list':
        return y.tolist(), ax
    if k == 'copy':
        y = np.ascontiguousarray(y)
        y.flags.writeable = False
        return y, ax
    if k == 'process' and y.ndim >= 2 and x.dtype.kind in 'if':
        return sd.process(np.arange(y.shape[0])*1., x=y.copy()), ax
    return y, ax


class Model:
    """All the data seen so far, and its direct statistics"""

    def __init__(self, use='all', dtype=None):
        self.use, self.dtype, self.x, self.n = use, dtype, None, 0

    def reduce(self, x):
        x = np.asarray(x)
        if self.use != 'all':
            h = x.shape[-1]//2
            f4 = x.dtype == np.float32
            a, b = x[..., :h].astype(float), x[..., h:].astype(float)
            x = (a + b)/2 if self.use == 'even' else (a - b)/2
            if f4:
                x = x.astype(np.float32)
        return x

    def add(self, x):
        x = self.reduce(x)
        if self.x is None:
            self.kind = x.dtype.kind
            self.eff = np.dtype(self.dtype if self.dtype is not None
                                else x.dtype if x.dtype.kind == 'f'
                                else float)
            self.single = (self.eff.itemsize < 8 or x.dtype == np.float32)
            self.vshape = x.shape[:-1]
            self.c = x.mean(axis=-1, dtype=float)
            self.x = x.astype(float)
        else:
            if x.dtype == np.float32:
                self.single = True
            x = np.broadcast_to(x.astype(float),
                                self.vshape + x.shape[-1:])
            self.x = np.concatenate((self.x, x), axis=-1)
        self.n = self.x.shape[-1]

    def judge(self, c, mc, idx=Ellipsis, what='stats'):
        """monitor: statistics of mc against those of self.x[idx]"""
        x = self.x[idx + (Ellipsis, slice(None))
                   if isinstance(idx, tuple) and
                   not any(j is Ellipsis for j in idx)
                   else idx] if idx is not Ellipsis else self.x
        return self._judge(c, mc, x, self.c[idx] if idx is not Ellipsis
                           else self.c, what)

    def _judge(self, c, mc, x, center, what):
        n = self.n
        x = np.asarray(x, np.longdouble)
        vs = x.shape[:-1]
        c.check(mc.paths == n, what + ':paths', f'{mc.paths} vs {n}')
        c.check(tuple(mc.vshape) == vs, what + ':vshape',
                f'{mc.vshape} vs {vs}')
        c.check(tuple(mc.shape) == vs + (n,), what + ':shape')
        eps = (3e-7 if self.single else 5e-16)*200*(1 + np.log2(n + 1))
        m = x.mean(axis=-1)
        d = x - m[..., None]
        v = (d**2).mean(axis=-1)
        amax = np.abs(x).max(axis=-1)
        # magnitude of centered data used in cumulating moments; the
        # center is rounded to the precision of cumulated data
        r = np.abs(x - np.asarray(center)[..., None]).max(axis=-1) \
            + amax*(3e-7 if self.single else 0)
        got = np.asarray(mc.mean())
        c.check(got.shape == vs and got.dtype == self.eff, what + ':dtype',
                f'{got.dtype} vs {self.eff}')

        def close(a, b, tol, name):
            a, b = np.asarray(a, float), np.asarray(b, float)
            c.ev('statistics_compared', b.size)
            c.check(a.shape == b.shape, what + ':' + name + '-shape',
                    f'{a.shape} vs {b.shape}')
            bad = ~(np.abs(a - b) <= np.asarray(tol, float))
            c.check(not bad.any(), what + ':' + name,
                    f'n={n} got {a[bad][:3]} expected {b[bad][:3]}'
                    if bad.any() else '')
        close(mc.mean(), m, eps*amax, 'mean')
        close(mc.m, m, eps*amax, 'mean')
        if n < 2:
            close(mc.var(), 0*m, eps*r*r, 'var')
            close(mc.std(), 0*m, np.sqrt(eps)*r, 'std')
            c.check(np.isnan(mc.stderr()).all(), what + ':stderr')
            return
        tv = eps*r*r
        close(mc.var(), v, tv, 'var')
        s = np.sqrt(v)
        ok = (v > 100*tv)
        c.ev('well_conditioned', ok.sum())
        with np.errstate(all='ignore'):
            ts = np.where(ok, tv/np.where(ok, s, 1), np.inf)
            one = np.where(ok, s, 1)
            sk = (d**3).mean(axis=-1)/one**3
            ku = (d**4).mean(axis=-1)/one**4
            q = r/one
        nan = lambda a: np.where(ok, np.nan_to_num(np.asarray(a, float)), 0)
        zero = lambda a: np.where(ok, a, 0)
        close(nan(mc.std()), zero(s), zero(ts), 'std')
        close(nan(mc.s), zero(s), zero(ts), 'std')
        close(nan(mc.stderr()), zero(s/np.sqrt(n - 1.)),
              zero(ts/np.sqrt(n - 1.)), 'stderr')
        close(nan(mc.e), zero(s/np.sqrt(n - 1.)),
              zero(ts/np.sqrt(n - 1.)), 'stderr')
        close(nan(mc.skew()), zero(sk), 40*eps*zero(q**3 + q**5), 'skew')
        close(nan(mc.kurtosis()), zero(ku), 80*eps*zero(q**4 + q**6),
              'kurtosis')
        st = mc.stats
        c.check(set(st) == {'mean', 'stderr', 'std', 'skew', 'kurtosis'},
                what + ':stats')
        for k in st:
            c.equal(st[k], getattr(mc, k)(), what + ':stats', k)


# =====================================================================
M01 = new(
    'M01', 'random histories of updates (batch sizes from 1 upwards, any '
    'paths axis, int/bool/float32/float64 data, offsets, antithetic use, '
    'broadcastable later samples, arrays/lists/processes) judged against '
    'direct statistics of all the data seen so far; non-trivial: distinct '
    '(shape, batches, kind, use, dtype)',
    required=['statistics_compared', 'rejections_observed',
              'broadcast_updates'])


def nothing(c, vshape):
    """a sample with no paths"""
    c.ev('empty_updates')
    sh = c.choice([vshape, vshape, (1,)*len(vshape)])
    return np.zeros(sh + (0,), c.choice([float, int, np.float32, bool]))


@M01.section(1500)
def histories(c):
    vshape = gen.dims(c)
    use = c.choice(['all', 'all', 'even', 'odd'])
    kind = c.choice(KINDS)
    dtype = c.choice([None, None, None, float, np.float32, np.longdouble])
    bins = c.choice([None, 100, 7, 'arr'])
    k = c.int(1, 6)
    off, wide = c.choice([(0., 1.), (0., 1.), (5., 1.), (-100., .5),
                          (0., 1e-3), (3., 1e4)])
    mult = 1 if use == 'all' else 2
    sizes = [mult*c.choice([1, 1, 2, 3, 10, c.int(1, 200)])
             for _ in range(k)]
    if c.chance(.03):
        # large samples
        vshape = c.choice([(), (2,)])
        sizes = [mult*c.choice([1, 100, 4099, 20011, 70001])
                 for _ in range(c.int(1, 3))]
    kw = dict(use=use, dtype=dtype)
    if bins == 'arr':
        bins = np.broadcast_to(np.linspace(-3, 3, 8), vshape + (8,))
    kw['bins'] = bins
    model = Model(use, dtype)
    first = sample(c, vshape, sizes[0], kind, off, wide)
    if c.chance(.1):
        # very unlike the following samples
        first = first*np.asarray(1, first.dtype) if kind == 'bool' \
            else first*2
    x, ax = present(c, first)
    empty = c.chance(.3)
    c.sig(vshape=vshape, use=use, kind=kind, dtype=dtype, sizes=sizes,
          off=off, wide=wide)
    if empty:
        mc = montecarlo(**kw)
        c.check(mc.paths == 0, 'stats:empty')
        c.check(repr(mc).startswith('<empty'), 'stats:empty')
        c.raises(ValueError, lambda: mc.vshape, 'stats:empty-vshape')
        mc.update(x, axis=ax)
    elif c.chance(.15):
        mc = montecarlo(nothing(c, vshape), **kw)
        c.check(mc.paths == 0, 'stats:empty')
        c.raises(ValueError, lambda: mc.vshape, 'stats:empty-vshape')
        mc.update(x, axis=ax)
    else:
        mc = montecarlo(x, axis=ax, **kw)
    model.add(first if not isinstance(x, list) else
              np.moveaxis(np.asarray(x), ax, -1))
    model.judge(c, mc)
    for n in sizes[1:]:
        sh = vshape
        if c.chance(.15):
            mc.update(nothing(c, vshape))
            model.judge(c, mc)
            c.raises(ValueError, lambda: mc.update(
                np.zeros((7,) + vshape + (c.choice([0, mult]),))),
                'stats:empty-shape')
            model.judge(c, mc)
        if vshape and c.chance(.3):
            # later samples broadcast to the shape of values
            sh = c.choice([vshape[1:], tuple(
                1 if c.chance(.5) else v for v in vshape), (1,)*len(vshape)])
            c.ev('broadcast_updates')
        y = sample(c, sh, n, kind if c.chance(.8) else c.choice(KINDS),
                   off, wide)
        x, ax = present(c, y)
        mc.update(x, axis=ax) if c.chance(.8) or ax == -1 \
            else mc.update(x, ax)
        model.add(y if not isinstance(x, list) else
                  np.moveaxis(np.asarray(x), ax, -1))
        model.judge(c, mc)
        c.ev('updates')


@M01.section(300)
def partition(c):
    """Splitting the same data differently does not affect results"""
    vshape = gen.dims(c)
    n = c.int(2, 300)
    x = sample(c, vshape, n, 'norm')
    bins = np.broadcast_to(np.sort(c.rng.normal(size=9)), vshape + (9,))
    a = montecarlo(x, bins=bins)
    c.sig(vshape=vshape, n=n)
    for _ in range(3):
        cuts = np.unique(c.rng.integers(1, n, size=c.int(1, 8)))
        parts = np.split(x, cuts, axis=-1)
        b = montecarlo(bins=bins)
        for p in parts:
            if c.chance(.1):
                b.update(nothing(c, vshape))
            b.update(p)
        c.check(b.paths == n, 'partition:paths')
        for k, v in a.stats.items():
            c.close(b.stats[k], v, 'partition:' + k, rtol=1e-9, atol=1e-12)
        for i in np.ndindex(vshape):
            c.equal(b[i].h[0], a[i].h[0], 'partition:counts')
            c.equal(b[i].outpaths, a[i].outpaths, 'partition:outpaths')
        c.ev('statistics_compared', 5)


@M01.section(100)
def scalars(c):
    """0-dimensional samples, one path at a time"""
    n = c.int(1, 30)
    x = c.rng.normal(size=n)
    mc = montecarlo(bins=c.choice([None, 5]))
    c.sig(n=n)
    for v in x:
        mc.update(float(v) if c.chance(.5) else np.asarray(v))
    m = Model()
    m.add(x)
    m.c = x[0]
    m.judge(c, mc)


@M01.section(150)
def nonfinite(c):
    """undefined data in a component do not affect the others"""
    vshape = c.choice([(2,), (3,), (2, 2)])
    use = c.choice(['all', 'all', 'even', 'odd'])
    hit = c.rng.random(vshape) < .5
    hit.flat[0], hit.flat[-1] = True, False
    a, b = (montecarlo(use=use, bins=None) for _ in range(2))
    when, k = c.int(0, 2), 3
    c.sig(vshape=vshape, use=use, when=when, hit=hit.tolist())
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(k):
            x = c.rng.normal(size=vshape + (2*c.int(1, 20),))
            y = x.copy()
            if i == when:
                y[hit, c.int(0, x.shape[-1] - 1)] = c.choice(
                    [np.nan, np.inf, -np.inf])
            a.update(x), b.update(y)
            for s, v in a.stats.items():
                v, w = (np.broadcast_to(z, vshape) for z in (v, b.stats[s]))
                c.close(np.where(np.isnan(v), 0, w)[~hit],
                        np.where(np.isnan(v), 0, v)[~hit],
                        'nonfinite-spread', s, rtol=1e-9, atol=1e-12)
            if i >= when:
                c.check(not np.isfinite(b.mean()[hit]).any(),
                        'nonfinite-mean')
            c.check(b.paths == a.paths, 'nonfinite-paths')
    c.ev('statistics_compared', 5)


@M01.section(300)
def rejected(c):
    """Rejected samples leave statistics untouched"""
    vshape = c.choice([(2,), (3,), (2, 3), ()])
    use = c.choice(['all', 'even', 'odd'])
    bins = c.choice([None, 10])
    x = sample(c, vshape, 20, 'norm')
    mc = montecarlo(x, use=use, bins=bins)
    m = Model(use)
    m.add(x)
    k = c.choice(['shape', 'ndim', 'odd'])
    c.sig(vshape=vshape, use=use, k=k, bins=bins)
    if k == 'odd':
        if use == 'all':
            c.raises(ValueError, lambda: montecarlo(x, use=c.choice(
                ['ALL', 'none', None, 0])), 'bad-use')
        else:
            n = c.choice([1, 3, 5, 7, 19])
            c.raises(ValueError, lambda: mc.update(x[..., :n]), 'odd-sample')
            c.raises(ValueError, lambda: montecarlo(x[..., :n], use=use),
                     'odd-sample')
    elif k == 'shape' and vshape:
        y = sample(c, vshape[:-1] + (vshape[-1] + 1,), 8, 'norm')
        c.raises(ValueError, lambda: mc.update(y), 'bad-shape')
    else:
        y = sample(c, (2,) + vshape, 8, 'norm')
        c.raises(ValueError, lambda: mc.update(y), 'bad-shape')
    m.judge(c, mc, what='after-rejection')
    y = sample(c, vshape, 6, 'norm')
    mc.update(y)
    m.add(y)
    m.judge(c, mc, what='after-rejection')
    if bins:
        for i in np.ndindex(vshape):
            c.check(mc[i].h[0].sum() + mc[i].outpaths == m.n,
                    'after-rejection:conservation')


# =====================================================================
M02 = new(
    'M02', 'random histories of updates, with binning given as number, name, '
    'range or explicit arrays; counts are recomputed from all the data; '
    'indexed instances taken at any time are compared with their parent '
    'after each later update; non-trivial: distinct (shape, binning, views)',
    required=['histograms_compared', 'views_compared', 'out_of_range_seen',
              'rejections_observed'])


def direct_counts(x, edges):
    """number of x in each [e[j], e[j+1]), last one closed; and outside"""
    x = np.asarray(x, float).ravel()
    e = np.asarray(edges, float)
    k = np.searchsorted(e, x, side='right') - 1
    k[x == e[-1]] = e.size - 2
    ins = (k >= 0) & (k < e.size - 1)
    n = np.bincount(k[ins], minlength=e.size - 1)
    return n, int((~ins).sum())


def judge_histogram(c, mc, x, edges, what):
    n, out = direct_counts(x, edges)
    h, b = mc.histogram()
    c.equal(b, edges, what + ':bins')
    edges = np.asarray(edges, float)
    if not (np.diff(edges) > 8*np.spacing(np.abs(edges).max())).all():
        # degenerate data: bins narrower than the rounding error
        c.check(h.sum() + int(mc.outpaths) == np.size(x),
                what + ':conservation')
        return
    c.equal(h, n, what + ':counts')
    c.check(int(mc.outpaths) == out, what + ':outpaths',
            f'{mc.outpaths} vs {out}')
    c.check(h.sum() + int(mc.outpaths) == np.size(x),
            what + ':conservation')
    c.close(float(mc.outerr()), out/np.size(x), what + ':outerr')
    hh, bb = mc.h
    c.equal(hh, h, what + ':shortcut')
    if n.sum():
        d, b2 = mc.density_histogram()
        c.equal(b2, edges, what + ':bins')
        c.close(d, n/n.sum()/np.diff(edges), what + ':density', rtol=1e-11)
        c.close((d*np.diff(edges)).sum(), 1., what + ':density-norm',
                rtol=1e-11)
        c.equal(mc.dh[0], d, what + ':shortcut')
    c.ev('histograms_compared')
    c.ev('out_of_range_seen', out)


def binning(c, vshape, first):
    """(kwargs, edges[i] for i in ndindex(vshape))"""
    k = c.choice(['int', 'int', 'str', 'range', 'arr', 'arr', 'obj',
                  'default', 'grid'])
    if k == 'default':
        kw = {}
        f = lambda x: np.histogram_bin_edges(x, 100)
    elif k == 'int':
        n = c.choice([1, 2, 10, 37])
        kw = dict(bins=n)
        f = lambda x: np.histogram_bin_edges(x, n)
    elif k == 'str':
        s = c.choice(['auto', 'fd', 'sturges', 'sqrt', 'scott', 'rice'])
        kw = dict(bins=s)
        r = None
        if c.chance(.3):
            r = kw['range'] = c.choice([(-1., 1.), (0, 2), (-.3, .4)])
        f = lambda x: np.histogram_bin_edges(x, s, r)
    elif k == 'range':
        n, r = c.choice([1, 5, 20]), c.choice([(-1., 1.), (0, 2), (-.3, .4)])
        kw = dict(bins=n, range=r)
        f = lambda x: np.histogram_bin_edges(x, n, r)
    elif k in ('arr', 'grid'):
        n = c.int(2, 12)
        e = np.cumsum(c.rng.random(vshape + (n,)) + .05, axis=-1)*.4 - 1
        if k == 'grid':   # dyadic edges: hit by data with ties
            e = np.cumsum(c.rng.integers(1, 4, size=vshape + (n,)),
                          axis=-1)*.125 - 1
        kw = dict(bins=e if c.chance(.7) else e.tolist())
        if c.chance(.2):
            kw['range'] = (-7., 7.)
        return k, kw, {i: e[i] for i in np.ndindex(vshape)}
    else:
        e = np.empty(vshape, dtype=object)
        for i in np.ndindex(vshape):
            e[i] = np.sort(c.rng.normal(size=c.int(2, 9)))
        if not vshape:
            # same as an array
            return k, dict(bins=e[()]), {(): e[()]}
        return k, dict(bins=e), {i: e[i] for i in np.ndindex(vshape)}
    return k, kw, {i: f(first[i]) for i in np.ndindex(vshape)}


def view_index(c, vshape):
    """basic indexing of values"""
    i = []
    for v in vshape[:c.int(1, len(vshape))]:
        i.append(c.choice([c.int(-v, v - 1), c.int(-v, v - 1),
                           slice(None), slice(0, max(1, v - 1)),
                           slice(None, None, -1), np.int64(0)]))
    if len(i) == 1 and c.chance(.6):
        return i[0]
    if c.chance(.2):
        return (Ellipsis, c.choice([0, -1]))
    return tuple(i)


def dyadic(c, x):
    return np.round(np.asarray(x, float)*8)/8


@M02.section(1200)
def histories(c):
    vshape = gen.dims(c, maxdim=2)
    use = c.choice(['all', 'all', 'even', 'odd'])
    kind = c.choice(['norm', 'norm', 'skewed', 'ties', 'int'])
    tie = c.chance(.4)
    mult = 1 if use == 'all' else 2

    def draw(n):
        x = sample(c, vshape, n*mult, kind)
        return dyadic(c, x) if tie else x
    red = Model(use).reduce
    x0 = draw(c.choice([1, 2, 30, 100]))
    if kind == 'int' and use == 'all' and x0.dtype.kind == 'f':
        pass
    bk, kw, edges = binning(c, vshape, red(x0))
    if c.chance(.2):
        kw['ctype'] = c.choice([np.int32, float, np.int64])
    if c.chance(.1):
        mc = montecarlo(nothing(c, vshape), use=use, **kw)
        mc.update(x0)
    else:
        mc = montecarlo(x0, use=use, **kw)
    model = Model(use)
    model.add(x0)
    views = []
    c.sig(vshape=vshape, use=use, bk=bk, kind=kind, tie=tie,
          n0=x0.shape[-1], i=c.index % 7)

    def judge_all():
        for i in np.ndindex(vshape):
            j = i if len(i) != 1 or c.chance(.5) else i[0]
            judge_histogram(c, mc[j], model.x[i], edges[i], 'histogram')
        for v, i, where in views:
            model._judge(c, v, where(model.x, True), where(model.c, False),
                         'view')
            vs = tuple(v.vshape)
            ii = index_array[i]
            for j in np.ndindex(vs):
                k = tuple(np.argwhere(index_array == ii[j])[0])
                judge_histogram(c, v[j] if vs else v, model.x[k],
                                edges[k], 'view')
            c.ev('views_compared')
    index_array = np.arange(int(np.prod(vshape, dtype=int))).reshape(vshape)
    judge_all()
    for _ in range(c.int(0, 4)):
        if vshape and c.chance(.7):
            i = view_index(c, vshape)

            def where(a, data, i=i):
                if data:
                    a = np.moveaxis(a, -1, 0)
                    k = i if isinstance(i, tuple) else (i,)
                    return np.moveaxis(a[(slice(None),) + k], 0, -1)
                return np.asarray(a)[i]
            views.append((mc[i], i, where))
            if vshape and c.chance(.3) and views[-1][0].vshape:
                # view of a view
                v, i1, _ = views[-1]
                j = c.choice([0, -1, slice(None), slice(0, 1)])
                ii = index_array[i1][j]
                if np.ndim(ii) == 0:
                    kk = tuple(int(u) for u in
                               np.argwhere(index_array == ii)[0])
                    views.append((v[j], kk, lambda a, d, kk=kk: a[kk]))
        if c.chance(.15):
            mc.update(nothing(c, vshape))
            judge_all()
        x = draw(c.choice([1, 2, 5, 60]))
        if c.chance(.3):
            x = x*3 if not tie else dyadic(c, x*3)
        mc.update(x)
        model.add(x)
        c.ev('updates')
        judge_all()
    # all bins are kept as fixed by the first sample
    if not vshape:
        judge_histogram(c, mc, model.x, edges[()], 'histogram')


@M02.section(200)
def update_by_view(c):
    """single valued instances may be updated by reference"""
    vshape = c.choice([(), (1,), (1, 1)])
    x = sample(c, vshape, 30, 'norm')
    e = np.array([-1., -.2, .1, 1.5])
    mc = montecarlo(x, bins=np.broadcast_to(e, vshape + (4,)))
    model = Model()
    model.add(x)
    i = c.choice({0: [(), Ellipsis], 1: [0, (0,), slice(None), -1],
                  2: [(0, 0), (0,), 0, (slice(None), 0)]}[len(vshape)])
    v = mc[i]
    c.sig(vshape=vshape, i=str(i))
    for _ in range(c.int(1, 4)):
        n = c.int(1, 20)
        y = sample(c, vshape, n, 'norm')
        if c.chance(.6):
            v.update(y.reshape(tuple(v.vshape) + (n,)))
            c.ev('view_updates')
        else:
            mc.update(y)
        model.add(y)
        model.judge(c, mc, what='parent')
        judge_histogram(c, mc, model.x, e, 'parent')
        judge_histogram(c, v, model.x, e, 'view')
        c.equal(np.asarray(v.mean()).ravel(), np.asarray(mc.mean()).ravel(),
                'view:mean')
        c.ev('views_compared')


@M02.section(200)
def partial_update(c):
    """updating part of the components never goes unnoticed"""
    m = c.int(2, 4)
    x = sample(c, (m,), 20, 'norm')
    mc = montecarlo(x, bins=5)
    i = c.int(0, m - 1)
    c.sig(m=m, i=i, k=c.index % 11)
    mc[i].update(c.rng.normal(size=7))
    c.raises(RuntimeError, lambda: mc.update(sample(c, (m,), 5, 'norm')),
             'partial-update-unnoticed')


@M02.section(200)
def unavailable(c):
    """distributions: only of single valued instances, with data and bins"""
    k = c.choice(['multi', 'empty', 'none', 'shape'])
    what = c.choice(['histogram', 'density_histogram', 'outpaths', 'outerr',
                     'h', 'dh', 'pdf', 'cdf'])

    def get(a):
        f = getattr(a, what)
        if what in ('pdf', 'cdf'):
            return f(0.)
        return f() if callable(f) else f
    c.sig(k=k, what=what)
    x = sample(c, (c.int(2, 3),), 9, 'norm')
    if k == 'multi':
        c.raises(IndexError, lambda: get(montecarlo(x)), 'multi-valued')
    elif k == 'empty':
        c.raises(ValueError, lambda: get(montecarlo()), 'empty')
    elif k == 'none':
        c.raises(ValueError, lambda: get(montecarlo(x[0], bins=None)),
                 'no-bins')
        c.raises(ValueError, lambda: get(montecarlo(x, bins=None)[0]),
                 'no-bins')
    else:
        c.raises(ValueError, lambda: montecarlo(
            x, bins=np.zeros((x.shape[0] + 1, 4)).cumsum(axis=-1)),
            'bins-shape')
        c.raises(ValueError, lambda: montecarlo(
            x, bins=np.arange(4.)), 'bins-shape')


@M02.section(200)
def nonfinite(c):
    """with given edges, nan and infinite values are outside of any bin"""
    vshape = c.choice([(), (), (2,), (1, 2)])
    use = c.choice(['all', 'all', 'even', 'odd'])
    n = c.int(2, 12)
    e = np.cumsum(c.rng.random(vshape + (n,)) + .05, axis=-1)*.4 - 1
    mult = 1 if use == 'all' else 2
    k = c.int(1, 3)
    c.sig(vshape=vshape, use=use, n=n, k=k)
    mc, data = montecarlo(bins=e, use=use), []
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(k):
            x = c.rng.normal(size=vshape + (mult*c.int(1, 30),))
            for j in c.rng.integers(x.size, size=c.int(0, 4)):
                x.flat[j] = c.choice([np.nan, np.inf, -np.inf])
            mc.update(x)
            h = x.shape[-1]//2
            data.append(x if use == 'all' else
                        (x[..., :h] + x[..., h:])/2 if use == 'even' else
                        (x[..., :h] - x[..., h:])/2)
        y = np.concatenate(data, axis=-1)
        for i in np.ndindex(vshape):
            m = mc[i] if vshape else mc
            z = y[i][np.isfinite(y[i])]
            count, out = direct_counts(z, e[i])
            out += y[i].size - z.size
            got, b = m.histogram()
            c.equal(got, count, 'nonfinite:counts')
            c.equal(b, e[i], 'nonfinite:bins')
            c.check(int(m.outpaths) == out, 'nonfinite:outpaths',
                    f'{m.outpaths} vs {out}')
            c.close(float(m.outerr()), out/y[i].size, 'nonfinite:outerr')
            c.ev('histograms_compared')


# =====================================================================
M03 = new(
    'M03', 'random histograms (uniform or not, from several updates, with '
    'data out of range); pdf and cdf against the stated kernel mixture and '
    'interpolants, integrals by quadrature; non-trivial: distinct (binning, '
    'method, kind, bandwidth, shape)',
    required=['pdf_points', 'integrals_checked', 'rejections_observed'])


def hist_mc(c):
    vshape = c.choice([(), (), (2,)])
    x0 = sample(c, vshape, c.choice([1, 20, 200]), 'norm', *c.choice(
        [(0., 1.), (5., .1), (-50., 10.)]))
    k = c.choice(['int', 'arr', 'arr', 'arr', 'edges', 'f4', 'many'])
    if k == 'int':
        kw = dict(bins=c.choice([1, 2, 10, 25]))
    elif k == 'many':
        # many bins, heavy tails
        kw = dict(bins=c.int(100, 800))
        x0 = c.rng.standard_t(c.choice([1.5, 3, 30]),
                              size=vshape + (c.choice([300, 20000]),))
    elif k in ('edges', 'f4'):
        # integer, or float32, bin edges
        s = c.choice([1., 4., 30.])
        x0 = (x0 - x0.mean())*s + c.choice([0., 3*s])
        e = np.unique(c.rng.integers(-4*s, 4*s + 1, size=c.int(2, 12)))
        if e.size < 3 or c.chance(.3):
            e = np.arange(-1, 1 + c.int(1, 12))
        # (edges of 8 bits integers overflow in numpy as well)
        dt = c.choice([np.int64, np.int32, np.int16])
        if c.chance(.2):
            e, dt = e - e.min(), np.uint16
        if k == 'f4':
            dt = np.float32
        e = np.broadcast_to(e.astype(dt), vshape + e.shape)
        kw = dict(bins=e.tolist() if c.chance(.2) else e)
    else:
        n = c.int(3, 15)
        lo, hi = x0.min() - .1, x0.max() + .1
        e = np.sort(c.rng.uniform(lo, hi, size=vshape + (n,)), axis=-1)
        e[..., 0], e[..., -1] = lo - .1, hi + .1
        if c.chance(.5):
            w = (hi - lo)
            e = e[..., :-1] if n > 3 else e
        if (np.diff(e) < 1e-6*(hi - lo)).any():
            e = np.broadcast_to(np.linspace(lo, hi, n), vshape + (n,))
        if c.chance(.3):
            # units of measure
            u = c.choice([1e-12, 1e-9, 1e-6, 1e6, 1e12])
            x0, e, k = x0*u, e*u, f'unit {u}'
        kw = dict(bins=e)
    mc = montecarlo(x0, **kw)
    for _ in range(c.int(0, 2)):
        mc.update(x0*c.choice([1, 1.5]) if c.chance(.5)
                  else x0[..., ::-1])
    if vshape:
        mc = mc[c.int(0, 1)]
    return k, mc


@M03.section(700)
def kde(c):
    k, mc = hist_mc(c)
    n, e = mc.histogram()
    e = np.asarray(e, float)
    if not n.sum():
        c.note(empty=True)
        return
    w = n/n.sum()
    mid, width = (e[1:] + e[:-1])/2, np.diff(e)
    bw = c.choice([1., 1., .5, 3., .1])
    h = width*bw
    lo, hi = e[0] - 8*h.max(), e[-1] + 8*h.max()
    sh = c.choice([(), (1,), (40,), (5, 8), (2, 1, 3)])
    x = c.rng.uniform(lo, hi, size=sh)
    c.sig(k=k, nb=e.size, bw=bw, sh=sh)
    kw = {} if bw == 1. and c.chance(.5) else dict(bandwidth=bw)
    if c.chance(.5):
        kw['method'] = 'gaussian_kde'
    xa = x if c.chance(.7) else (float(x) if sh == () else x.tolist())
    p, P = mc.pdf(xa, **kw), mc.cdf(xa, **kw)
    u = (x[..., None] - mid)/h
    c.close(p, (w*np.exp(-u*u/2)/h/np.sqrt(2*np.pi)).sum(axis=-1), 'kde-pdf',
            rtol=1e-10, atol=1e-200)
    c.close(P, (w*scipy.special.ndtr(u)).sum(axis=-1), 'kde-cdf', rtol=1e-10,
            atol=1e-14)
    c.ev('pdf_points', x.size)
    # integrals
    g = np.linspace(lo, hi, 4001)
    if h.min() > 8*(g[1] - g[0]):
        pg, Pg = mc.pdf(g, **kw), mc.cdf(g, **kw)
        I = scipy.integrate.cumulative_trapezoid(pg, g, initial=0)
        tol = 1e-3 if h.min() > 40*(g[1] - g[0]) else 1e-2
        c.check(abs(I[-1] - 1) < tol, 'kde-normalization', f'{I[-1]}')
        c.check(np.abs(I - Pg).max() < tol, 'kde-cdf-integral')
        c.check((np.diff(Pg) >= -1e-12).all() and Pg[0] >= -1e-12
                and Pg[-1] <= 1 + 1e-12, 'kde-cdf-monotone')
        c.check((pg >= 0).all(), 'kde-pdf-positive')
        c.ev('integrals_checked')


@M03.section(500)
def interp(c):
    k, mc = hist_mc(c)
    n, e = mc.histogram()
    e = np.asarray(e, float)
    if not n.sum():
        c.note(empty=True)
        return
    d = n/n.sum()/np.diff(e)
    mid = (e[1:] + e[:-1])/2
    kind = c.choice(['linear', 'linear', 'linear', 'nearest', 'quadratic',
                     'cubic', 'slinear', 'zero'])
    if mid.size < 4 and kind in ('quadratic', 'cubic'):
        kind = 'linear'
    kw = dict(method='interp')
    if kind != 'linear' or c.chance(.5):
        kw['kind'] = kind
    w = e[-1] - e[0]
    c.sig(k=k, kind=kind, nb=e.size)
    out = np.concatenate((e[0] - w*c.rng.random(3) - 1e-9*w,
                          e[-1] + w*c.rng.random(3) + 1e-9*w))
    cum = np.concatenate(([0.], np.cumsum(d*np.diff(e))))
    tol = 1e-7 if kind in ('quadratic', 'cubic') else 1e-11
    c.close(mc.pdf(mid, **kw), d, 'interp-pdf-midpoints', kind, rtol=tol)
    c.close(mc.pdf(out, **kw), 0*out, 'interp-pdf-outside', kind)
    c.close(mc.cdf(e, **kw), cum, 'interp-cdf-endpoints', kind, rtol=tol)
    c.close(mc.cdf(out, **kw), np.array([0., 0, 0, 1, 1, 1]),
            'interp-cdf-outside', kind)
    c.close(mc.pdf(e[[0, -1]], **kw), np.zeros(2), 'interp-pdf-bounds', kind,
            atol=1e-7*d.max())
    c.ev('pdf_points', mid.size + e.size + out.size)
    if kind in ('linear', 'slinear'):
        x = c.rng.uniform(e[0], e[-1], size=c.choice([(), (30,), (4, 5)]))
        xx = np.concatenate(([e[0]], mid, [e[-1]]))
        yy = np.concatenate(([0.], d, [0.]))
        c.close(mc.pdf(x, **kw), np.interp(x, xx, yy), 'interp-pdf', kind,
                rtol=1e-9)
        c.close(mc.cdf(x, **kw), np.interp(x, e, cum), 'interp-cdf', kind,
                rtol=1e-9)
        c.ev('pdf_points', x.size)
    else:
        # 'kind' is passed to scipy.interpolate.interp1d
        x = c.rng.uniform(e[0], e[-1], size=20)
        xx = np.concatenate(([e[0]], mid, [e[-1]]))
        yy = np.concatenate(([0.], d, [0.]))
        f = scipy.interpolate.interp1d
        c.close(mc.pdf(x, **kw), f(xx, yy, kind=kind)(x), 'interp-pdf', kind,
                rtol=1e-6)
        c.close(mc.cdf(x, **kw), f(e, cum, kind=kind)(x), 'interp-cdf', kind,
                rtol=1e-6)
        c.ev('pdf_points', x.size)
    if kind in ('linear', 'slinear'):
        g = np.linspace(e[0], e[-1], 500)
        c.check((np.diff(mc.cdf(g, **kw)) >= -1e-12).all(),
                'interp-cdf-monotone')
    if c.chance(.2):
        c.raises(ValueError, lambda: getattr(
            mc, c.choice(['pdf', 'cdf']))(0., method='kde'), 'bad-method')
