"""Monitors for the process class (P01-P08)."""
import math
import pickle
import warnings
import copy as copymod

import numpy as np
import sdepy as sd
from sdepy import process, piecewise

from ..core import Check
from .. import gen

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


def same_process(c, p, t, x, mech, msg='', rtol=1e-12):
    """p is a process with timeline t and values x."""
    c.check(type(p) is process, mech, f'{msg} type {type(p)}')
    c.equal(p.t, t, mech + ':timeline', f'{msg} timeline')
    c.close(p.x, x, mech, msg, rtol=rtol)


# =====================================================================
# P01 construction
# =====================================================================
P01 = new(
    'P01', 'random timeline (scalar/list/int/float32/negative/offset), values '
    'given as x, v or c in several containers, dtypes and memory layouts; '
    'non-trivial if shape, kind and container differ from other cases',
    required=['rejections_observed'])


def _container(c, x):
    k = c.choice(['array', 'array', 'list', 'tuple', 'layout'])
    if k == 'list':
        return x.tolist()
    if k == 'tuple' and x.ndim:
        return tuple(x)
    if k == 'layout':
        return gen.layout(c, x)
    return x


@P01.section(4800)
def construct(c):
    t = gen.timeline(c)
    n = t.size
    vshape, paths = gen.dims(c), gen.npaths(c)
    how = c.choice(['x', 'v', 'c'])
    dtype = c.choice([None, None, float, np.float32, np.float16, int,
                      complex, 'f8'])
    src = c.choice(['f8', 'f8', 'i8', 'f4', 'c16', 'g', '?'])
    if src in ('c16', 'g') and dtype is not None:
        src = 'f8'
    if how == 'x':
        data = gen.values(c, (n,) + vshape + (paths,), src)
        exp = data
    elif how == 'v':
        data = gen.values(c, (n,) + vshape, src)
        exp, paths = data[..., np.newaxis], 1
    else:
        data = gen.values(c, vshape, src)
        paths = 1
        exp = np.stack([data]*n)[..., np.newaxis]
    if dtype is float or dtype is None:
        pass
    scal = (n == 1 and c.chance(0.5))
    targ = t[0] if scal else _container(c, t)
    t = np.asarray(targ).reshape(-1)  # lists of float32 turn into float64
    arg = _container(c, data)
    c.sig(n=n, vshape=vshape, paths=paths, how=how, dtype=dtype, src=src)
    p = process(targ, dtype=dtype, **{how: arg})
    if dtype is not None and how in 'xvc':
        exp = exp.astype(dtype)
        c.check(p.dtype == np.dtype(dtype), 'dtype', f'{p.dtype} vs {dtype}')
    c.check(isinstance(p, process) and isinstance(p, np.ndarray), 'type')
    c.equal(p.t, t, 'timeline')
    c.check(p.shape == (n,) + vshape + (paths,), 'shape',
            f'{p.shape} vs {(n,) + vshape + (paths,)}')
    c.equal(p.x, exp, 'values')
    c.equal(np.asarray(p), exp, 'values')
    c.check(type(p.x) is np.ndarray, 'x-type')
    # attributes
    c.check(p.paths == paths and p.vshape == vshape, 'attributes',
            f'paths {p.paths} vshape {p.vshape}')
    c.equal(p.tx, t.reshape((n,) + (1,)*(len(vshape) + 1)), 'tx')
    c.equal(p.dt, t[1:] - t[:-1], 'dt')
    c.equal(p.dtx, (t[1:] - t[:-1]).reshape((n-1,) + (1,)*(len(vshape) + 1)),
            'dtx')
    c.check(np.broadcast(p.tx, p.x).shape == p.shape, 'tx-broadcast')


@P01.section(1600)
def default_time(c):
    vshape, paths = gen.dims(c), gen.npaths(c)
    x = gen.values(c, (1,) + vshape + (paths,))
    c.sig(vshape=vshape, paths=paths)
    p = process(x=x)
    c.equal(p.t, [0.], 'default-t')
    c.equal(p.x, x, 'default-values')
    q = process(c=x[0, ..., 0])
    c.equal(q.x[0, ..., 0], x[0, ..., 0], 'default-c')
    c.check(q.shape == (1,) + vshape + (1,), 'default-c-shape')


@P01.section(2400)
def reference(c):
    """t, x, v are stored by reference if possible; copies are copies."""
    t = gen.timeline(c)
    vshape, paths = gen.dims(c), gen.npaths(c, 30)
    how = c.choice('xv')
    x = gen.values(c, t.shape + vshape + ((paths,) if how == 'x' else ()),
                   'f8')
    c.sig(n=t.size, vshape=vshape, paths=paths, how=how)
    if c.chance(.5):
        # data laid out in memory in any way
        x = gen.layout(c, x)
        if not x.flags.writeable:
            x = np.array(x)
    if c.chance(.3):
        t = np.repeat(t, 2)[::2]
    p = process(t, **{how: x})
    c.check(np.shares_memory(p.t, t) and np.shares_memory(p.x, x),
            'reference')
    i = tuple(c.int(0, k - 1) for k in x.shape)
    x[i] = 12345.5
    j = i if how == 'x' else i + (0,)
    c.check(p[j] == 12345.5, 'reference', 'write to x not seen by process')
    p[j] = -7.25
    c.check(x[i] == -7.25, 'reference', 'write to process not seen by x')
    t0, x0 = p.t.copy(), p.x.copy()
    order = c.choice([{}, dict(order='C'), dict(order='F')])
    a, b, d = p.pcopy(**order), p.xcopy(**order), p.tcopy(**order)
    for q, sx, st, name in ((a, 0, 0, 'pcopy'), (b, 0, 1, 'xcopy'),
                            (d, 1, 0, 'tcopy')):
        same_process(c, q, t0, x0, name)
        c.check(np.shares_memory(q.x, p.x) == bool(sx)
                and np.shares_memory(q.t, p.t) == bool(st),
                name + '-sharing')
    a.x[...] = 0
    b.x[...] = 0
    a.t[...] = 0
    d.t[...] = 0
    c.equal(p.x, x0, 'copy-isolated')
    c.equal(p.t, t0, 'copy-isolated')
    p.x[...] = 31.5
    c.equal(d.x, p.x, 'tcopy-sharing', 'values written to the original')
    c.ev('copies_checked', 3)


@P01.section(1600)
def independent(c):
    """each value of a process is a distinct location: writing to one of
    them does not affect the others"""
    t = gen.timeline(c, c.choice([1, 2, 3, 5, 12]))
    n = t.size
    vshape, paths = gen.dims(c), gen.npaths(c, 10)
    how = c.choice(['x', 'v', 'c', 'c', 'c', 'op'])
    shape = {'x': (n,) + vshape + (paths,), 'v': (n,) + vshape,
             'c': vshape, 'op': (n,) + vshape + (paths,)}[how]
    data = gen.values(c, shape, 'f8')
    keep = data.copy()
    dtype = c.choice([None, None, 'f8', 'f4', 'c16'])
    if how == 'op':
        p = process(t, c=np.zeros(vshape)) + process(t, x=data)
    else:
        p = process(t, dtype=dtype, **{how: data})
    exp = np.array(p.x)
    c.check(p.flags.writeable, 'values-writable', how)
    ops = []
    for k in range(c.int(1, 4)):
        i = tuple(c.int(0, m - 1) for m in p.shape)
        v = float(c.int(-99, 99)) + .5
        op = c.choice(['item', 'x', 'time', 'iop', 'paths', 'add', 'view'])
        ops.append(op)
        if op == 'item':
            p[i] = v
            exp[i] = v
        elif op == 'x':
            p.x[i] = v
            exp[i] = v
        elif op == 'time':
            p[i[0]] = v
            exp[i[0]] = v
        elif op == 'iop':
            p *= 2
            exp *= 2
        elif op == 'paths':
            p[..., i[-1]] = v
            exp[..., i[-1]] = v
        elif op == 'add':
            p[i[0]] += v
            exp[i[0]] += v
        else:
            q = p['t', i[0]]
            q.x[...] = v
            exp[i[0]] = v
        c.equal(p.x, exp, 'values-not-independent', f'{how} {ops}')
        c.ev('writes')
    if how == 'c' and n > 1 or how == 'op':
        c.equal(data, keep, 'constant-not-copied')
    q = process(t, c=keep[0, ..., 0]) if how in ('x', 'op') else \
        process(t, **{how: keep})
    if how == 'c':
        c.equal(q.x, np.stack([keep]*n)[..., np.newaxis],
                'values-not-independent', 'new process')
    c.sig(how=how, n=n, vshape=vshape, ops=ops, dtype=dtype)


@P01.section(2400)
def malformed(c):
    t = gen.timeline(c, c.int(2, 9))
    n = t.size
    vshape, paths = gen.dims(c), gen.npaths(c, 20)
    x = gen.values(c, (n,) + vshape + (paths,))
    k = c.choice(['none', 'xv', 'xc', 'vc', 'xvc', 't2d', 'tempty', 'len+',
                  'len-', 'vlen', 'len1'])
    c.sig(kind=k, n=n, vshape=vshape)
    f = {
        'none': lambda: process(t),
        'xv': lambda: process(t, x=x, v=x[..., 0]),
        'xc': lambda: process(t, x=x, c=1.),
        'vc': lambda: process(t, v=x[..., 0], c=1.),
        'xvc': lambda: process(t, x=x, v=x[..., 0], c=x[0, ..., 0]),
        't2d': lambda: process(t.reshape(1, -1), x=x),
        'tempty': lambda: process(t[:0], x=x[:0]),
        'len+': lambda: process(t[:-1], x=x),
        'len-': lambda: process(t, x=x[:-1]),
        'vlen': lambda: process(t[1:], v=x[..., 0]),
        'len1': lambda: process(t, x=x[:1]),
    }[k]
    c.raises(ValueError, f, 'malformed-accepted', k)


@P01.section(2400)
def shapeas(c):
    vshape = gen.dims(c)
    lead = c.int(0, 2)
    p, t, x = gen.proc(c, sd, vshape=(1,)*lead + vshape)
    vs = p.vshape
    k = c.choice(['extend', 'same', 'reduce', 'process', 'bad'])
    c.sig(k=k, vs=vs, lead=lead, n=t.size)
    if k == 'extend':
        m = c.int(1, 3)
        target = (c.int(1, 5),)*m + vs
        new_vs = (1,)*m + vs
    elif k == 'same':
        target = tuple(c.int(1, 4) for _ in vs)
        new_vs = vs
    elif k in ('reduce', 'process'):
        j = c.int(0, lead)
        new_vs = vs[j:]
        target = new_vs
    else:
        big = (3,) + vs
        q, tq, xq = gen.proc(c, sd, vshape=big)
        c.raises(ValueError, lambda: q.shapeas(vs[:c.int(0, len(vs))]),
                 'shapeas-nonunit-removed')
        return
    if k == 'process':
        arg, _, _ = gen.proc(c, sd, vshape=target)
    else:
        arg = target
    q = p.shapeas(arg)
    c.check(q.shape == t.shape + new_vs + (p.paths,), 'shapeas-shape',
            f'{q.shape} for {vs} -> {target}')
    same_process(c, q, t, x.reshape(q.shape), 'shapeas')
    if p.x.flags.c_contiguous:
        c.check(np.shares_memory(q.x, p.x), 'shapeas-same-data')
        c.ev('sharing_checked')


# =====================================================================
# P02 ufuncs
# =====================================================================
P02 = new(
    'P02', 'random numpy ufuncs (unary, binary, ternary, two-output, in '
    'place, with out) over processes sharing a timeline, constant processes, '
    'arrays and scalars; non-trivial: distinct (ufunc, operand kinds, shapes)',
    required=['rejections_observed', 'ufunc_calls'])

UNARY = ['negative', 'absolute', 'exp', 'sin', 'cos', 'tanh', 'square',
         'sqrt', 'log', 'sign', 'floor', 'isfinite', 'conjugate', 'rint',
         'signbit', 'reciprocal', 'cbrt', 'arctan']
BINARY = ['add', 'subtract', 'multiply', 'divide', 'power', 'maximum',
          'minimum', 'greater', 'less_equal', 'equal', 'not_equal',
          'arctan2', 'hypot', 'fmod', 'copysign', 'floor_divide',
          'logaddexp', 'logical_and', 'fmax', 'float_power', 'heaviside']
TWO_OUT = ['modf', 'frexp', 'divmod']


def _operand(c, t, vshape, paths, kind):
    """(operand, plain array value, timeline or None)"""
    vs = vshape
    ps = c.choice([paths, paths, 1])
    if c.chance(0.3):
        vs = tuple(1 if c.chance(0.4) else k for k in vshape)
    dt = c.choice(['f8', 'f8', 'f4', 'i8'])
    if kind == 'same':
        tt = t if c.chance(0.5) else t.copy()
        p, a, b = gen.proc(c, sd, t=tt, vshape=vs, paths=ps, dtype=dt,
                           positive=True)
        return p, b, p.t
    if kind == 'const':
        tt = np.array([c.rng.normal()]) if c.chance(.7) else t[:1].copy()
        p, a, b = gen.proc(c, sd, t=tt, vshape=vs, paths=ps, dtype=dt,
                           positive=True)
        return p, b, p.t
    if kind == 'scalar':
        s = c.choice([2, 1.5, np.float64(0.75), np.int64(3), True])
        return s, s, None
    if kind == 'array':
        full = t.shape + vs + (ps,)
        k = c.int(0, len(full))
        a = gen.values(c, full[k:], 'f8', positive=True)
        return a, a.copy(), None
    raise AssertionError


def _expected_t(ops):
    ts = [o[2] for o in ops if o[2] is not None]
    for tt in ts:
        if tt.size > 1:
            return tt
    return ts[0]


def _check_ufunc(c, u, ops, extra_out=None):
    vals = [o[1] for o in ops]
    exp = u(*vals)
    got = u(*[o[0] for o in ops])
    c.ev('ufunc_calls')
    many = isinstance(exp, tuple)
    tt = _expected_t(ops)
    for e, g in zip(exp if many else [exp], got if many else [got]):
        c.check(isinstance(g, process), 'ufunc-type', f'{u} {type(g)}')
        c.check(g.dtype == e.dtype, 'ufunc-dtype', f'{u} {g.dtype} {e.dtype}')
        c.close(g.x, e, 'ufunc-values', str(u),
                rtol=1e-5 if e.dtype.itemsize <= 4 else 1e-11)
        c.equal(g.t, tt, 'ufunc-timeline', str(u))
        if tt.size > 1 or len([o for o in ops if o[2] is not None]) == 1:
            shared = any(np.shares_memory(g.t, o[2]) for o in ops
                         if o[2] is not None)
            c.check(shared, 'ufunc-timeline-reference', str(u))
    # operands are left untouched
    for o in ops:
        if isinstance(o[0], np.ndarray):
            c.equal(np.asarray(o[0]), o[1], 'ufunc-operand-changed', str(u))
            if o[2] is not None:
                c.check(o[0].t is o[2], 'ufunc-operand-timeline')
    return got


@P02.section(12000)
def values(c):
    vshape, paths = gen.dims(c), gen.npaths(c, 30)
    t = gen.timeline(c, c.choice([2, 3, 5, 17, c.int(2, 90)]))
    nin = c.choice([1, 2, 2, 2, 3])
    if nin == 1:
        name = c.choice(UNARY + TWO_OUT[:2])
    elif nin == 2:
        name = c.choice(BINARY + TWO_OUT[2:])
    else:
        name = c.choice(['clip', 'where'])
    u = np.core.umath.clip if name == 'clip' else getattr(np, name)
    kinds = [c.choice(['same', 'same', 'const', 'array', 'scalar'])
             for _ in range(nin)]
    if name == 'where':
        u, name = np.core.umath.clip, 'clip'
    if not set(kinds) & {'same', 'const'}:
        kinds[c.int(0, nin-1)] = c.choice(['same', 'const'])
    if 'same' not in kinds and 'array' in kinds:
        # arrays match the timeline: a non constant process is needed
        kinds[kinds.index('const')] = 'same'
    if 'const' in kinds and 'same' not in kinds:
        kinds = [('const' if k == 'array' else k) for k in kinds]
    ops = [_operand(c, t, vshape, paths, k) for k in kinds]
    nd = max(np.ndim(o[1]) for o in ops)
    c.sig(u=name, kinds=kinds, vshape=vshape, paths=paths, n=t.size)
    if nd > len(vshape) + 2:
        return
    # the output should have the full process rank and timeline
    shp = np.broadcast(*[np.asarray(o[1]) for o in ops]).shape
    tt = _expected_t(ops)
    if shp[0] != tt.size:
        return
    if name in ('frexp', 'modf') or nin == 1:
        pass
    _check_ufunc(c, u, ops)


@P02.section(4000)
def chains(c):
    """expressions mixing several processes keep values and timeline"""
    vshape, paths = gen.dims(c), gen.npaths(c, 30)
    t = gen.timeline(c, c.int(2, 20))
    A = [gen.proc(c, sd, t=t, vshape=vshape,
                  paths=c.choice([1, paths]), dtype='f8') for _ in range(3)]
    k = process(c=gen.values(c, vshape, 'f8'))
    kx = k.x.copy()
    (p, _, px), (q, _, qx), (r, _, rx) = A
    c.sig(n=t.size, vshape=vshape, paths=[p.paths, q.paths, r.paths])
    got = (p + 2*q)*k - np.exp(-np.abs(r))/(1 + q*q) + np.maximum(k, p)
    exp = (px + 2*qx)*kx - np.exp(-np.abs(rx))/(1 + qx*qx) \
        + np.maximum(kx, px)
    same_process(c, got, t, exp, 'chain', rtol=1e-10)
    got = k*k + 1
    c.check(got.t.size == 1, 'chain-const')
    got = sum([p, q, r])
    same_process(c, got, t, px + qx + rx, 'chain-sum', rtol=1e-10)
    c.ev('ufunc_calls', 12)


@P02.section(3200)
def inplace(c):
    vshape, paths = gen.dims(c), gen.npaths(c, 30)
    t = gen.timeline(c, c.int(1, 20), 'rand')
    p, _, x = gen.proc(c, sd, t=t, vshape=vshape, paths=paths, dtype='f8',
                       lay=False)
    k = c.choice(['same', 'const', 'array', 'scalar'])
    other, y, _ = _operand(c, t, vshape, paths, k)
    name = c.choice(['iadd', 'isub', 'imul', 'itruediv', 'out', 'outarr'])
    c.sig(name=name, k=k, n=t.size, vshape=vshape, paths=paths)
    c.ev('ufunc_calls')
    p0, pt = p, p.t
    if name == 'iadd':
        p += other
        x = x + y
    elif name == 'isub':
        p -= other
        x = x - y
    elif name == 'imul':
        p *= other
        x = x*y
    elif name == 'itruediv':
        p /= other
        x = x/y
    elif name == 'out':
        out = process(t, x=np.zeros_like(x))
        r = np.add(p, other, out=out)
        c.equal(p.x, x, 'inplace-operand')
        c.close(out.x, x + y, 'out-values', rtol=1e-6)
        c.close(np.asarray(r), x + y, 'out-values', rtol=1e-6)
        return
    else:
        out = np.zeros_like(x)
        r = np.add(p, other, out=out)
        c.close(out, x + y, 'out-values', rtol=1e-6)
        c.equal(p.x, x, 'inplace-operand')
        return
    c.check(isinstance(p, process), 'inplace-type')
    c.close(p.x, x, 'inplace-values', name, rtol=1e-6)
    c.equal(p.t, t, 'inplace-timeline')
    # the original object was updated
    c.close(p0.x, x, 'inplace-original', name, rtol=1e-6)
    if k not in ('scalar', 'array'):
        c.equal(np.asarray(other), y, 'ufunc-operand-changed')


@P02.section(6400)
def incompatible(c):
    """Mixing timelines, or time/values/paths axes, is rejected."""
    vshape, paths = gen.dims(c), gen.npaths(c, 12)
    n = c.choice([2, 3, 6, 15, 40])
    t = gen.timeline(c, n, 'rand')
    p, _, px = gen.proc(c, sd, t=t, vshape=vshape, paths=paths, dtype='f8',
                        positive=True)
    kind = c.choice(['time_val', 'time_val', 'time_len', 'ndim', 'vals',
                     'paths', 'lost'])
    vs2, ps2, t2 = vshape, paths, t.copy()
    if kind == 'time_val':
        how = c.choice(['one', 'last', 'first', 'shift', 'tinydiff'])
        if how == 'one':
            t2[c.int(0, n-1)] += 0.001
        elif how == 'last':
            t2[-1] += 0.5
        elif how == 'first':
            t2[0] -= 0.5
        elif how == 'shift':
            t2 += 0.25
        else:
            i = c.int(0, n-1)
            t2[i] = np.nextafter(t2[i], np.inf)
        kind += how
    elif kind == 'time_len':
        t2 = gen.timeline(c, n + c.int(1, 3), 'rand')
    elif kind == 'ndim':
        vs2 = (c.choice([1, 2]),) + vshape
    elif kind == 'vals':
        if not vshape:
            vshape2 = (3,)
            p, _, px = gen.proc(c, sd, t=t, vshape=vshape2, paths=paths,
                                dtype='f8', positive=True)
            vs2 = (4,)
        else:
            i = c.int(0, len(vshape) - 1)
            p, _, px = gen.proc(
                c, sd, t=t, paths=paths, dtype='f8', positive=True,
                vshape=vshape[:i] + (vshape[i] + 1,) + vshape[i+1:])
            vs2 = vshape[:i] + (vshape[i] + 2,) + vshape[i+1:]
            vshape = p.vshape
    elif kind == 'paths':
        p, _, px = gen.proc(c, sd, t=t, vshape=vshape, paths=paths + 1,
                            dtype='f8', positive=True)
        ps2 = paths + 2
    q, _, qx = gen.proc(c, sd, t=t2, vshape=vs2, paths=ps2, dtype='f8',
                        positive=True)
    c.sig(kind=kind, n=n, vshape=vshape, vs2=vs2, paths=paths)
    if kind == 'lost':
        # a view without a timeline
        z = p.transpose() if p.shape[0] != p.shape[-1] else p[np.newaxis] \
            .view(process)
        c.raises(ValueError, lambda: z + p, 'no-timeline-accepted')
        return
    name = c.choice(['add', 'multiply', 'maximum', 'less', 'arctan2'])
    u = getattr(np, name)
    mode = c.choice(['pq', 'qp', 'clip', 'clip2', 'chain', 'iadd'])
    k = process(c=np.full(p.vshape, .5))
    if mode == 'pq':
        f = lambda: u(p, q)
    elif mode == 'qp':
        f = lambda: u(q, p)
    elif mode == 'clip':
        if len(vs2) != len(p.vshape):
            return
        f = lambda: np.core.umath.clip(k, p, q)
    elif mode == 'clip2':
        if len(vs2) != len(p.vshape):
            return
        f = lambda: np.core.umath.clip(p, k, q)
    elif mode == 'chain':
        f = lambda: (p*2 + 1) - (q/3)
    else:
        def f():
            z = p.pcopy()
            z += q
    c.raises(ValueError, f, 'incompatible-accepted', f'{kind} {mode} {name}')
    c.equal(p.x, px, 'rejected-operand-changed')
    c.equal(q.x, qx, 'rejected-operand-changed')


# =====================================================================
# P03 indexing
# =====================================================================
P03 = new(
    'P03', 'random numpy keys (ints, numpy ints, slices, masks, integer '
    'arrays, ellipsis, newaxis, tuples) for ordinary and for t/v/p process '
    'indexing; non-trivial: distinct (mode, key kind, shape)',
    required=['rejections_observed'])


def _key1(c, n, adv=True):
    """a random index for an axis of size n: (key, kind)"""
    k = c.choice(['int', 'nint', 'slice', 'slice', 'list', 'arr', 'mask',
                  'all', 'step'] if adv else ['int', 'slice', 'all', 'step'])
    if k == 'int':
        return c.int(-n, n-1), k
    if k == 'nint':
        return c.choice([np.int64, np.int32])(c.int(-n, n-1)), k
    if k == 'slice':
        a = c.int(0, n-1)
        return slice(a, c.int(a+1, n)), k
    if k == 'step':
        return slice(None, None, c.choice([1, 2, -1, 3])), k
    if k == 'list':
        return [c.int(-n, n-1) for _ in range(c.int(1, 4))], k
    if k == 'arr':
        return c.rng.integers(-n, n, size=c.int(1, 5)), k
    if k == 'mask':
        m = c.rng.random(n) < .6
        m[c.int(0, n-1)] = True
        return m, k
    return slice(None), k


@P03.section(7200)
def ordinary(c):
    p, t, x = gen.proc(c, sd)
    mode = c.choice(['one', 'one', 'tuple', 'tuple', 'ell', 'newaxis',
                     'mask', 'empty', 'oob', 'scalar'])
    if mode == 'one':
        key, kk = _key1(c, x.shape[0])
    elif mode == 'tuple':
        m = c.int(1, x.ndim)
        key = tuple(_key1(c, n, adv=False)[0] for n in x.shape[:m])
        kk = m
    elif mode == 'ell':
        key = c.choice([(Ellipsis, 0), (0, Ellipsis), (Ellipsis,),
                        (slice(None), Ellipsis, 0), (0, Ellipsis, -1),
                        Ellipsis])
        kk = str(key)
    elif mode == 'newaxis':
        key = c.choice([(np.newaxis,), np.newaxis, (0, np.newaxis),
                        (slice(None), np.newaxis, Ellipsis)])
        kk = str(key)
    elif mode == 'mask':
        key = x.real > 0
        kk = ''
    elif mode == 'empty':
        key, kk = (), ''
    elif mode == 'scalar':
        key = tuple(c.int(-n, n-1) for n in x.shape)
        kk = ''
    else:
        key = c.choice([x.shape[0], -x.shape[0]-1,
                        (0,)*(x.ndim + 1), (0, x.shape[1])
                        if x.ndim == 2 else x.shape[0] + 3])
        c.sig(mode=mode, shape=x.shape)
        c.raises(IndexError, lambda: p[key], 'oob-accepted')
        return
    c.sig(mode=mode, kk=kk, shape=x.shape, dtype=x.dtype)
    a, b = p[key], x[key]
    c.check(not isinstance(a, process), 'ordinary-type', f'{type(a)}')
    c.check(type(a) is type(b), 'ordinary-type', f'{type(a)} vs {type(b)}')
    c.equal(a, b, 'ordinary-values', f'key {key!r}')
    if isinstance(a, np.ndarray):
        c.check(a.dtype == b.dtype, 'ordinary-dtype')
        if np.shares_memory(b, x) and a.size:
            c.check(np.shares_memory(a, p.x), 'ordinary-view')
    # assignment
    if mode in ('one', 'tuple', 'scalar') and p.x.flags.writeable:
        p[key] = 1
        x[key] = 1
        c.equal(p.x, x, 'ordinary-assign')


@P03.section(7200)
def timeline_and_paths(c):
    p, t, x = gen.proc(c, sd, n=c.choice([1, 2, 3, 8, 30]))
    a = c.choice('tp')
    n = x.shape[0] if a == 't' else x.shape[-1]
    if c.chance(0.08):
        c.sig(a=a, kk='none', shape=x.shape)
        q = p[a] if c.chance(.5) else p[(a,)]
        same_process(c, q, t, x, 'special-empty')
        return
    key, kk = _key1(c, n)
    # an integer key is a one-element selection
    sel = np.arange(n)[key]
    sel = np.atleast_1d(sel)
    c.sig(a=a, kk=kk, shape=x.shape, neg=isinstance(key, int) and key < 0)
    q = p[a, key]
    if a == 't':
        same_process(c, q, t[sel], x[sel], 'time-index', f'{key!r}')
    else:
        same_process(c, q, t, x[..., sel], 'paths-index', f'{key!r}')
    if isinstance(key, (slice, int)):
        c.check(np.shares_memory(q.x, p.x), 'special-view')
    if a == 't' and isinstance(key, (slice, int)):
        c.check(np.shares_memory(q.t, p.t), 'special-view')
    c.check(np.array_equal(p.x, x) and np.array_equal(p.t, t),
            'special-parent-changed')


@P03.section(5600)
def values_index(c):
    vshape = tuple(c.int(1, 5) for _ in range(c.int(1, 3)))
    p, t, x = gen.proc(c, sd, vshape=vshape)
    mode = c.choice(['one', 'one', 'multi', 'ell', 'mask', 'newaxis'])
    if mode == 'one':
        key, kk = _key1(c, vshape[0])
        keys = (key,)
    elif mode == 'multi':
        m = c.int(1, len(vshape))
        keys = tuple(_key1(c, k, adv=False)[0] for k in vshape[:m])
        kk = [type(k).__name__ for k in keys]
    elif mode == 'ell':
        keys = c.choice([(Ellipsis, 0), (Ellipsis,), (Ellipsis, slice(0, 1))])
        kk = str(keys)
    elif mode == 'newaxis':
        keys = c.choice([(np.newaxis,), (np.newaxis, 0), (0, np.newaxis)])
        kk = str(keys)
    else:
        m = c.rng.random(vshape) < .5
        m.flat[0] = True
        keys = (m,)
        kk = 'mask'
    if mode == 'ell':
        exp = np.stack([np.stack([x[i][..., j][keys] for j in
                                  range(x.shape[-1])], axis=-1)
                        for i in range(t.size)])
    else:
        exp = np.stack([np.stack([x[i][..., j][keys] for j in
                                  range(x.shape[-1])], axis=-1)
                        for i in range(t.size)])
    c.sig(mode=mode, kk=kk, shape=x.shape)
    as_tuple = c.chance(.4)
    q = p['v', keys] if as_tuple else p[('v',) + keys]
    same_process(c, q, t, exp, 'values-index', f'{keys!r}')
    c.check(q.t is p.t or np.shares_memory(q.t, p.t), 'values-index-t')


@P03.section(960)
def special_assign_view(c):
    """slices returned by process indexing are views on the parent"""
    p, t, x = gen.proc(c, sd, vshape=(c.int(1, 3), c.int(1, 3)), lay=False,
                       dtype='f8')
    a = c.choice('tvp')
    n = {'t': x.shape[0], 'v': x.shape[1], 'p': x.shape[-1]}[a]
    i = c.int(0, n-1)
    c.sig(a=a, shape=x.shape, i=i)
    q = p[a, i]
    q.x[...] = 99.
    if a == 't':
        x[i] = 99.
    elif a == 'v':
        x[:, i] = 99.
    else:
        x[..., i] = 99.
    c.equal(p.x, x, 'special-view-write')


@P03.section(800)
def bad_flag(c):
    p, t, x = gen.proc(c, sd)
    f = c.choice(['x', 'tt', 'T', '', 'pv', 'V', ' t'])
    c.sig(f=f, shape=x.shape, tup=c.chance(.5))
    c.raises(IndexError, lambda: p[f], 'bad-flag-accepted')
    c.raises(IndexError, lambda: p[f, 0], 'bad-flag-accepted')


# =====================================================================
# P04 ndarray methods are not overridden
# =====================================================================
P04 = new(
    'P04', 'random calls of ndarray methods and numpy functions on processes, '
    'compared with the same call on their plain array view; non-trivial: '
    'distinct (method, arguments, shape, dtype)', required=['method_calls', 'timelines_kept', 'timelines_lost'])

REDUCE = ['sum', 'mean', 'min', 'max', 'prod', 'var', 'std', 'any', 'all',
          'argmin', 'argmax', 'ptp', 'cumsum', 'cumprod', 'argsort']


@P04.section(7200)
def methods(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8']))
    name = c.choice(REDUCE)
    kw = {}
    ax = c.choice([None] + list(range(-x.ndim, x.ndim)))
    if name == 'argsort':
        kw = dict(axis=ax)
    else:
        kw = dict(axis=ax)
        if name in ('sum', 'mean', 'min', 'max', 'prod', 'var', 'std',
                    'any', 'all', 'ptp') and c.chance(.4):
            kw['keepdims'] = True
        if name in ('var', 'std') and c.chance(.4):
            kw['ddof'] = 1
        if name in ('sum', 'mean', 'max') and c.chance(.2):
            kw['axis'] = (0, x.ndim - 1)
        if name in ('sum', 'mean', 'cumsum', 'var') and c.chance(.2):
            kw['dtype'] = np.float32
    c.sig(name=name, kw=kw, shape=x.shape, dtype=x.dtype)
    exp = getattr(x, name)(**kw)
    c.ev('method_calls')
    got = getattr(p, name)(**kw)
    _check_timeline(c, p, t, got, name)
    c.close(np.asarray(got), exp, 'method', f'{name} {kw}',
            rtol=1e-4 if np.asarray(exp).dtype.itemsize <= 4 else 1e-10)
    if kw.get('axis') is None and not kw.get('keepdims') and \
            np.ndim(exp) == 0:
        c.check(np.ndim(got) == 0, 'method-scalar', name)
    f = getattr(np, name, None)
    if f is not None:
        c.ev('method_calls')
        c.close(np.asarray(f(p, **kw)), exp, 'function', f'np.{name} {kw}',
                rtol=1e-4 if np.asarray(exp).dtype.itemsize <= 4 else 1e-10)
    if 'out' not in kw and name in ('sum', 'mean', 'max') and \
            isinstance(exp, np.ndarray) and min(p.strides) > 0:
        out = np.empty_like(exp)
        getattr(p, name)(out=out, **kw)
        c.close(out, exp, 'method-out', name, rtol=1e-4
                if exp.dtype.itemsize <= 4 else 1e-10)
    c.equal(p.x, x, 'method-changed-process')
    c.equal(p.t, t, 'method-changed-process')


def _check_timeline(c, p, t, got, name, permuted=False):
    """a result keeps the timeline of the process, or is not usable as
    a process"""
    process = sd.process
    for z in (got if isinstance(got, (tuple, list)) else (got,)):
        if not isinstance(z, process):
            continue
        zt = getattr(z, 't', None)
        if zt is not None and zt.shape == z.shape[:1]:
            c.ev('timelines_kept')
            c.equal(zt, t, 'method-timeline', name)
        else:
            c.ev('timelines_lost')
            # (axes are permuted by numpy after the timeline is set)
            c.check(zt is None or permuted, 'method-timeline-mismatch',
                    f'{name}: shape {z.shape}, timeline {zt}')
            if z.ndim:
                c.raises(ValueError, lambda: z + 1, 'method-timeline-used',
                         name)
                c.raises(ValueError, lambda: z*z, 'method-timeline-used',
                         name)


def _factors(c, n):
    """a random shape of size n"""
    shape = []
    while n > 1 and len(shape) < 4:
        d = c.choice([k for k in range(1, n + 1) if n % k == 0])
        shape.append(d)
        n //= d
    shape.append(n)
    return tuple(shape)


@P04.section(4000)
def reshaping(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f4', 'i8']))
    newshape = _factors(c, x.size) if x.size < 5000 else (x.size,)
    fs = dict(
        reshape2=lambda z: z.reshape(newshape),
        reshape3=lambda z: z.reshape(z.shape[::-1]),
        reshape4=lambda z: np.reshape(z, z.shape[1:] + z.shape[:1]),
        resize=lambda z: np.resize(z, z.shape[::-1]),
        concat0=lambda z: np.concatenate((z, z), axis=0),
        take0=lambda z: z.take([0]*min(x.shape[-1] + 1, 50), axis=0),
        moveaxis=lambda z: np.moveaxis(z, 0, -1),
        expand=lambda z: np.expand_dims(z, 0),
        compress=lambda z: z.compress([True], axis=0),
        tile=lambda z: np.tile(z, 2),
        full=lambda z: np.full_like(z, 2, shape=z.shape[::-1]),
        partition=lambda z: np.partition(z, 0, axis=0),
        reshape=lambda z: z.reshape(-1),
        ravel=lambda z: z.ravel(),
        flatten=lambda z: z.flatten(),
        transpose=lambda z: z.transpose(),
        TT=lambda z: z.T.T,
        Tsum=lambda z: z.T.sum(axis=0),
        Trs=lambda z: z.T.reshape(-1)[::2],
        rsv=lambda z: z.reshape((1,) + z.shape).swapaxes(0, 1).max(axis=1),
        T=lambda z: z.T,
        swap=lambda z: z.swapaxes(0, -1),
        astype=lambda z: z.astype(np.float32),
        copy=lambda z: z.copy(),
        squeeze=lambda z: z.squeeze(),
        tolist=lambda z: z.tolist(),
        clip=lambda z: z.clip(-1, 1),
        round=lambda z: z.round(1),
        repeat=lambda z: z.repeat(2, axis=0),
        take=lambda z: z.take([0, -1], axis=-1),
        dot=lambda z: z.dot(np.ones(x.shape[-1])),
        conj=lambda z: z.conj(),
        diagonal=lambda z: z.diagonal(),
        nonzero=lambda z: z.nonzero(),
        concat=lambda z: np.concatenate((z, z), axis=-1),
        stack=lambda z: np.stack((z, z)),
        diff=lambda z: np.diff(z, axis=0),
        where=lambda z: np.where(np.asarray(z) > 0, z, 0),
        einsum=lambda z: np.einsum('i...->...', z),
        shape=lambda z: np.array(z.shape),
        size=lambda z: np.array([z.size, z.ndim, z.nbytes]),
        iter=lambda z: [np.asarray(k) for k in z],
        ones=lambda z: np.ones_like(z),
        item=lambda z: np.array(z.item(0)),
        sort=lambda z: np.sort(z, axis=-1),
        addreduce=lambda z: np.add.reduce(z, axis=-1),
        addaccum=lambda z: np.add.accumulate(z, axis=0),
    )
    name = c.choice(sorted(fs))
    c.sig(name=name, shape=x.shape, dtype=x.dtype)
    exp, got = fs[name](x), fs[name](p)
    c.ev('method_calls')
    if name in ('tolist',):
        c.check(exp == got, 'method', name)
    elif name in ('nonzero', 'iter'):
        for a, b in zip(got, exp):
            c.equal(a, b, 'method', name)
        c.check(len(got) == len(exp), 'method', name)
    else:
        c.close(np.asarray(got), exp, 'method', name, rtol=1e-5
                if np.asarray(exp).dtype.itemsize <= 4 else 1e-11)
    _check_timeline(c, p, t, got, name, name in
                    ('transpose', 'T', 'swap', 'moveaxis', 'diagonal'))
    c.equal(p.x, x, 'method-changed-process')
    c.equal(p.t, t, 'method-changed-process')


# =====================================================================
# P05 interpolation
# =====================================================================
P05 = new(
    'P05', 'random non-uniform timelines, values, query arrays of any rank '
    '(inside, at nodes, outside) and interpolation kinds; non-trivial: '
    'distinct (kind, shapes, n)', required=['points_inside', 'points_outside',
                                           'points_at_nodes'])


def _query(c, t, shape):
    r = c.rng
    n = int(np.prod(shape, dtype=int))
    lo, hi = float(t[0]), float(t[-1])
    w = (hi - lo) or 1.
    s = np.empty(n)
    for k in range(n):
        u = r.random()
        if u < .55:
            s[k] = lo + w*r.random()
        elif u < .75:
            s[k] = t[r.integers(t.size)]
        elif u < .87:
            s[k] = lo - w*(.01 + r.random())
        else:
            s[k] = hi + w*(.01 + r.random())
    c.ev('points_inside', int(((s > lo) & (s < hi)).sum()))
    c.ev('points_outside', int(((s < lo) | (s > hi)).sum()))
    c.ev('points_at_nodes', int(np.isin(s, t).sum()))
    return s.reshape(shape)


def _qshape(c):
    return c.choice([(), (), (1,), (5,), (2, 3), (1, 2, 2), (c.int(1, 40),)])


def interp_oracle(t, x, s, kind):
    """scalar by scalar reference interpolation, constant outside;
    nan where the kind is ambiguous (midpoint ties)"""
    t = t.astype(float)
    out = np.empty(s.shape + x.shape[1:], dtype=np.result_type(x, float))
    for i in np.ndindex(s.shape):
        u = float(s[i])
        if t.size == 1 or u <= t[0]:
            out[i] = x[0]
            continue
        if u >= t[-1]:
            out[i] = x[-1]
            continue
        k = 0
        while t[k+1] < u:
            k += 1
        # t[k] < u <= t[k+1]
        w = (u - t[k])/(t[k+1] - t[k])
        if kind == 'linear':
            out[i] = x[k]*(1 - w) + x[k+1]*w
        elif kind == 'nearest':
            if t[k] + t[k+1] == 2*u and t[k] == int(t[k]) and \
                    t[k+1] == int(t[k+1]) and abs(u) < 1e6:
                # an exact tie is rounded down (see scipy interp1d)
                out[i] = x[k]
            elif abs(w - .5) < 1e-6:
                out[i] = np.nan
            else:
                out[i] = x[k] if w < .5 else x[k+1]
        elif kind in ('zero', 'previous'):
            out[i] = x[k+1] if u == t[k+1] else x[k]
        elif kind == 'next':
            out[i] = x[k+1]
    return out


def check_interp(c, got, exp, mech, msg='', rtol=1e-9, x=None):
    m = np.isnan(exp.real)
    got = np.where(m, 0, got)
    exp = np.where(m, 0, exp)
    # opposite values at the nodes may cancel
    sc = 0. if x is None else np.abs(np.where(np.isfinite(x), x, 0)).max(
        initial=0.)
    c.close(got, exp, mech, msg, rtol=rtol,
            atol=sc*(1e-13 if rtol < 1e-6 else 1e-6))


@P05.section(7200)
def interp(c):
    dt = c.choice(['f8', 'f8', 'f8', 'f4'])
    p, t, x = gen.proc(c, sd, dtype=dt, n=c.choice([1, 2, 3, 5, 12, 60]))
    s = _query(c, t, _qshape(c))
    kind = c.choice(['linear', 'linear', 'nearest', 'zero', 'previous',
                     'next'])
    if t.size > 1 and c.chance(.2):
        # midway between nodes
        k = c.rng.integers(0, t.size - 1, size=s.shape)
        s = (t[k].astype(float) + t[k + 1])/2
        c.ev('points_midway', s.size)
    f32 = t.dtype == np.float32
    t = t.astype(float)
    how = c.choice(['kind', 'attr', 'interp', 'default'])
    c.sig(kind=kind, how=how, sshape=s.shape, shape=x.shape)
    arg = s.tolist() if c.chance(.3) else s
    if how == 'default':
        kind = 'linear'
        got = p(arg)
    elif how == 'kind':
        if c.chance(.3):
            p.interp_kind = 'linear'
        got = p(arg, kind=kind)
    elif how == 'attr':
        p.interp_kind = kind
        got = p(arg)
        q = p + 0.
        c.check(q.interp_kind == 'linear', 'interp-kind-propagated')
    else:
        f = p.interp(kind=kind)
        got = f(arg)
    c.check(type(got) is np.ndarray, 'interp-type', f'{type(got)}')
    c.check(got.dtype == x.dtype, 'interp-dtype', f'{got.dtype}')
    c.check(got.shape == s.shape + x.shape[1:], 'interp-shape',
            f'{got.shape}')
    exp = interp_oracle(t, x, s, kind)
    check_interp(c, got, exp, 'interp-values', f'kind={kind} t={t[:5]} '
                 f's={s}', rtol=2e-4 if dt == 'f4' else
                 1e-5 if f32 else 1e-9, x=x)
    c.equal(p.x, x, 'interp-changed-process')


def interp_vec(t, x, s, kind):
    """vectorized reference interpolation (extended precision weights)"""
    t, s = t.astype(float), np.asarray(s, float)
    k = np.clip(np.searchsorted(t, s, side='left') - 1, 0, t.size - 2)
    w = (s.astype(np.longdouble) - t[k])/(t[k+1] - t[k])
    w = np.where(s == t[k+1], 1, np.where(s == t[k], 0, np.clip(w, 0, 1)))
    w = w.reshape(w.shape + (1,)*(x.ndim - 1))
    if kind == 'linear':
        return (x[k]*(1 - w) + x[k+1]*w).astype(x.dtype)
    if kind == 'nearest':
        out = np.where(w < .5, x[k], x[k+1])
        return np.where(abs(w - .5) < 1e-6, np.nan, out)
    if kind == 'next':
        return np.where(w > 0, x[k+1], x[k])
    return np.where(w == 1, x[k+1], x[k])


def same_values(c, got, exp, mech, msg='', rtol=1e-9):
    """equal within rounding errors; same nan and infinite values"""
    got, exp = np.asarray(got), np.asarray(exp)
    c.check(got.shape == exp.shape, mech, f'{got.shape} vs {exp.shape} {msg}')
    f = np.isfinite(exp)
    same = np.isfinite(got) == f
    same &= f | (got == exp) | (np.isnan(got) & np.isnan(exp))
    c.check(same.all(), mech, f'{msg} got {got[~same][:3]} '
            f'expected {exp[~same][:3]}')
    g, e = np.where(f, got, 0), np.where(f, exp, 0)
    c.close(g, e, mech, msg, rtol=rtol,
            atol=rtol*float(np.abs(e).max(initial=0)))


def spoil(c, x, inf=True):
    """set a few values of x to nan, or infinity"""
    k = c.int(1, max(1, min(5, x.size//4)))
    bad = [np.nan, np.inf, -np.inf] if inf else [np.nan]
    for j in c.rng.choice(x.size, size=min(k, x.size), replace=False):
        x.flat[j] = bad[c.rng.integers(len(bad))]
    c.ev('nonfinite_values', int((~np.isfinite(x)).sum()))
    return x


@P05.section(400)
def nonfinite(c):
    """undefined values of a path, or component, stay there"""
    n, vs, m = c.choice([1, 2, 5, 12]), gen.dims(c, 2), c.int(1, 6)
    t = gen.timeline(c, n)
    x = c.rng.normal(size=(n,) + vs + (m,))
    y = x.copy()
    cols = c.rng.random(vs + (m,)) < .5
    for k in np.argwhere(cols):
        i = (c.int(0, n - 1),) + tuple(k)
        y[i] = c.choice([np.nan, np.inf, -np.inf])
    kind = c.choice(['linear', 'nearest', 'previous', 'next'])
    s = _query(c, t, _qshape(c))
    c.sig(n=n, vs=vs, m=m, kind=kind, s=s.shape)
    p, q = process(t, x=x.copy()), process(t, x=y.copy())
    with np.errstate(all='ignore'):
        a, b = p(s, kind=kind), q(s, kind=kind)
        c.check(b.shape == a.shape, 'nonfinite-shape')
        c.equal(b[..., ~cols], a[..., ~cols], 'nonfinite-spread', kind)
        ds = c.rng.random(s.shape)
        a, b = p(s, ds, kind=kind), q(s, ds, kind=kind)
        c.equal(b[..., ~cols], a[..., ~cols], 'nonfinite-spread', kind)
        s = np.sort(s.ravel())
        a, b = p.rebase(s, kind=kind), q.rebase(s, kind=kind)
        c.equal(b.x[..., ~cols], a.x[..., ~cols], 'nonfinite-spread', kind)
        # the process at the points of its timeline
        if kind != 'linear':
            c.check(np.array_equal(q(t, kind=kind), y, equal_nan=True),
                    'nonfinite-nodes', kind)
    c.ev('nonfinite_values', int((~np.isfinite(y)).sum()))


@P05.section(400)
def large(c):
    """long timelines: evenly or unevenly spaced, dense, with repeated
    gaps, far from the origin"""
    n = c.choice([65, 100, 101, 257, 1000, 1025, 5001])
    kind = c.choice(['linear', 'linear', 'nearest', 'zero', 'previous',
                     'next'])
    how = c.choice(['linspace', 'arange', 'rand', 'jitter', 'blocks',
                    'outlier'])
    unit = c.choice([1., 1., 1e-9, 1e-12, 1e-5, 1e7])
    off = c.choice([0., 0., -1., 1e3, 1e5])
    r = c.rng
    if how == 'linspace':
        t = np.linspace(0., c.int(1, 9), n)
    elif how == 'arange':
        t = np.arange(n)*.1
    elif how == 'rand':
        t = np.cumsum(.01 + r.random(n))
    elif how == 'jitter':
        t = np.arange(n) + r.uniform(-.4, .4, size=n)*c.choice([1., 1e-2,
                                                                1e-4])
    elif how == 'blocks':
        t = np.cumsum(np.repeat([1., .25, 1.], -(-n//3))[:n])
    else:
        t = np.arange(n)*1.
        t[c.int(n//2, n - 1):] += c.choice([.5, 10.])
    t = (t + off)*unit
    vshape, paths = gen.dims(c, 1), c.int(1, 3)
    x = r.normal(size=(n,) + vshape + (paths,))
    p = process(t, x=x)
    c.sig(n=n, how=how, kind=kind, unit=unit, off=off)
    c.equal(p(t, kind=kind), x, 'interp-nodes', f'{how} {unit} {off}') \
        if kind in ('zero', 'previous', 'next', 'nearest') else \
        c.close(p(t, kind=kind), x, 'interp-nodes', f'{how} {unit} {off}')
    s = _query(c, t, (50,))
    check_interp(c, p(s, kind=kind), interp_vec(t, x, s, kind),
                 'interp-values', f'{how} n={n} unit={unit} off={off}',
                 rtol=1e-9*(1 + 1e-3*abs(off)), x=x)
    if c.chance(.15):
        # many query points, in one call
        ns = c.choice([1001, 5003, 8192, 20011, (71, 83), (1, 6007),
                       (6007, 1)])
        w = float(t[-1] - t[0])
        s = t[0] - .05*w + 1.1*w*r.random(ns)
        check_interp(c, p(s, kind=kind), interp_vec(t, x, s, kind),
                     'interp-values', f'{how} n={n} queries={ns}',
                     rtol=1e-9*(1 + 1e-3*abs(off)), x=x)
        c.ev('points_inside', s.size)
    m = c.int(0, n - 1)
    a, b = sorted([m, c.int(0, n - 1)])
    q = p.rebase(t[a:b+1], kind=kind)
    c.close(q.x, x[a:b+1], 'rebase-nodes', how)


@P05.section(1200)
def splines(c):
    """quadratic/cubic kinds pass through the nodes, are constant outside
    and reproduce polynomials"""
    n = c.int(5, 25)
    t = gen.timeline(c, n, 'rand')
    kind = c.choice(['quadratic', 'cubic'])
    vshape, paths = gen.dims(c), gen.npaths(c, 9)
    deg = 2 if kind == 'quadratic' else 3
    co = c.rng.normal(size=(deg + 1,) + vshape + (paths,))
    tc = t - t.mean()

    def poly(u):
        u = u.reshape(u.shape + (1,)*(len(vshape) + 1)) - t.mean()
        return sum(co[k]*u**k for k in range(deg + 1))
    x = poly(t)
    p = process(t, x=x)
    c.sig(kind=kind, n=n, vshape=vshape, paths=paths)
    s = t[0] + (t[-1] - t[0])*c.rng.random(7)
    got = p(s, kind=kind)
    c.ev('points_inside', 7)
    c.close(got, poly(s), 'spline-polynomial', rtol=1e-6)
    c.close(p(t, kind=kind), x, 'spline-nodes', rtol=1e-7)
    c.close(p(t[-1] + 1, kind=kind), x[-1], 'spline-outside')
    c.close(p(t[0] - 1, kind=kind), x[0], 'spline-outside')


@P05.section(4000)
def increments(c):
    """increments, with default and explicit interpolation kinds, are the
    differences of the interpolated values"""
    p, t, x = gen.proc(c, sd, dtype='f8')
    s = _query(c, t, _qshape(c))
    ds = c.rng.normal(size=c.choice([(), s.shape]))
    if c.chance(.3):
        ds = ds*(t[-1] - t[0])
    kind = c.choice([None, None, 'linear', 'nearest', 'zero', 'previous',
                     'next', 'cubic'])
    attr = c.choice([None, None, 'linear', 'zero', 'nearest'])
    if kind == 'cubic' and t.size < 5:
        kind = None
    c.sig(shape=x.shape, s=s.shape, ds=ds.shape, kind=kind, attr=attr)
    if attr is not None:
        p.interp_kind = attr
    kw = {} if kind is None else dict(kind=kind)
    k = kind or attr or 'linear'
    s0, s1 = np.broadcast_to(s, (s + ds).shape), np.asarray(s + ds)
    got = p(s.tolist() if c.chance(.2) else s, ds, **kw)
    sc = 1e-5 if t.dtype == np.float32 else 1e-9
    # the same, via values at each time
    c.close(got, p(s1, **kw) - p(s0, **kw), 'increments-values', k,
            atol=1e-9*float(np.abs(x).max()))
    if k in ('linear', 'zero') and t.dtype != np.float32 or k == 'linear':
        e = interp_oracle(t.astype(float), x, s1, k) - \
            interp_oracle(t.astype(float), x, s0, k)
        c.close(got, e, 'increments', k, rtol=sc,
                atol=sc*float(np.abs(x).max()))
    c.check((p.interp_kind == attr) if attr else
            (p.interp_kind == 'linear'), 'interp-kind-changed')


@P05.section(2400)
def rebase(c):
    p, t, x = gen.proc(c, sd, dtype='f8')
    m = c.int(1, 20)
    same = c.chance(.2)
    if same:
        # the timeline it has already
        s = c.choice([p.t, t.copy(), t])
        m = s.size
    else:
        s = np.sort(_query(c, t, (m,)))
    kind = c.choice([None, 'linear', 'zero'])
    pk = c.choice([None, None, 'zero']) if t.dtype != np.float32 else None
    if pk:
        p.interp_kind = pk
    c.sig(shape=x.shape, m=m, kind=kind, same=same, pk=pk)
    sca = (m == 1 and c.chance(.6))
    q = p.rebase(s[0] if sca else s, **({} if kind is None
                                        else dict(kind=kind)))
    tt = t
    kind = kind or pk
    exp = interp_oracle(tt, x, s, kind or 'linear')
    c.check(type(q) is process, 'rebase-type')
    c.check(q.interp_kind == 'linear', 'rebase-kind')
    c.equal(q.t, s, 'rebase-timeline')
    sc = 1e-5 if t.dtype == np.float32 else 1e-9
    if kind == 'zero' and t.dtype == np.float32:
        return
    c.close(q.x, exp, 'rebase-values', rtol=sc)
    # the new process has values of its own
    c.check(not np.shares_memory(q.x, p.x), 'rebase-aliased')
    q.x[...] = 7.
    c.mutated(q.x)
    c.equal(p.x, x, 'rebase-aliased', 'values of the original process')
    r = p(s)
    c.check(not np.shares_memory(r, p.x), 'interp-aliased')


@P05.section(2000)
def class_default(c):
    """the default interpolation kind is the class attribute"""
    p, t, x = gen.proc(c, sd, dtype='f8', t=gen.timeline(c, c.int(2, 9),
                                                         'rand'))
    s = _query(c, t, (6,))
    kind = c.choice(['nearest', 'zero'])
    c.sig(kind=kind, shape=x.shape)
    old = process.interp_kind
    try:
        process.interp_kind = kind
        got = (p*1)(s)
    finally:
        process.interp_kind = old
    check_interp(c, got, interp_oracle(t, x, s, kind), 'class-default-kind',
                 x=x)


@P05.section(3200)
def piecewise_const(c):
    n = c.int(1, 12)
    t = gen.timeline(c, n)
    mode = c.choice(['mid', 'forward', 'backward', None])
    vshape, paths = gen.dims(c), gen.npaths(c, 9)
    how = c.choice('xv')
    kd = c.choice(['f8', 'f8', 'i8', 'f4', 'c16', '?'])
    x = gen.values(c, (n,) + vshape + (paths,), kd)
    if how == 'v':
        x = x[..., :1]
    args = {how: x if how == 'x' else x[..., 0]}
    if mode:
        args['mode'] = mode
    if kd in ('f8', 'f4') and c.chance(.3):
        args['dtype'] = c.choice([int, float, np.float32, complex])
        x = x.astype(args['dtype'])
    p = piecewise(t, **args)
    c.check(p.dtype == x.dtype, 'piecewise-dtype', f'{p.dtype} {x.dtype}')
    s = _query(c, t, (15,))
    tf = t.astype(float)
    # stay away from segment boundaries
    bounds = (tf[1:] + tf[:-1])/2 if mode in ('mid', None) else tf
    if bounds.size:
        d = np.abs(s[:, None] - bounds).min(axis=1)
        s = s[d > 1e-5*np.abs(tf).max()]
    c.sig(mode=mode, n=n, vshape=vshape, how=how, kd=kd)
    if not s.size:
        return
    exp = np.empty(s.shape + x.shape[1:], x.dtype)
    for i, u in enumerate(s):
        if mode in ('mid', None):
            k = int(np.argmin(np.abs(tf - u)))
        elif mode == 'forward':
            k = max(0, int(np.sum(tf <= u)) - 1)
        else:
            k = min(n - 1, int(np.sum(tf < u)))
        exp[i] = x[k]
    got = p(s)
    c.check(got.dtype == x.dtype, 'piecewise-dtype', 'interpolated')
    c.close(got, exp, 'piecewise', f'mode={mode} t={tf} s={s}',
            rtol=1e-6 if x.dtype == np.float32 else 1e-12)
    q = piecewise(t, **args)
    c.close(q(s[0]), exp[0], 'piecewise')


@P05.section(160)
def piecewise_bad(c):
    n = c.int(1, 5)
    m = c.choice(['zzz', 'fwd', '', 'MID'])
    c.sig(n=n, m=m)
    c.raises(ValueError, lambda: piecewise(np.arange(n), v=np.arange(n),
                                           mode=m), 'piecewise-bad-mode')


# =====================================================================
# P06 summaries
# =====================================================================
P06 = new(
    'P06', 'random processes, summary across paths, values or time, with '
    'dtype, ddof and out arguments; oracle: explicit loops over the '
    'collected scalars; non-trivial: distinct (summary, args, shape, dtype)',
    required=['summaries'])


def _scalar_summary(op, v, ddof):
    v = [complex(z) if isinstance(z, complex) or np.iscomplexobj(z)
         else float(z) for z in v]
    n = len(v)
    if op == 'min':
        return min(v)
    if op == 'max':
        return max(v)
    fs = math.fsum
    if op == 'sum':
        return fs(v)
    mu = fs(v)/n
    if op == 'mean':
        return mu
    if n - ddof <= 0:
        return np.nan
    var = fs((z - mu)**2 for z in v)/(n - ddof)
    return var if op == 'var' else math.sqrt(var)


def _summary_oracle(ax, op, x, ddof):
    """collect scalars along the summarized axes, one by one"""
    n, vs, m = x.shape[0], x.shape[1:-1], x.shape[-1]
    if ax == 'p':
        out = np.empty((n,) + vs + (1,))
        for i in np.ndindex((n,) + vs):
            out[i + (0,)] = _scalar_summary(op, x[i].tolist(), ddof)
    elif ax == 't':
        out = np.empty((1,) + vs + (m,))
        for i in np.ndindex(vs + (m,)):
            out[(0,) + i] = _scalar_summary(
                op, x[(slice(None),) + i].tolist(), ddof)
    else:
        out = np.empty((n, m))
        for i in range(n):
            for j in range(m):
                out[i, j] = _scalar_summary(
                    op, x[i][..., j].ravel().tolist(), ddof)
    return out


def _accurate(c, op, got, exp, sc, mech):
    """rounding errors as of any backward stable algorithm: relative to
    the scale of data for means, to the deviations for variances"""
    u = 2e-12
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if op in ('mean', 'std'):
        tol = u*sc + 1e-9*(np.abs(exp) if op == 'std' else 0)
    elif op == 'var':
        tol = 1e-9*np.abs(exp) + u*sc*np.sqrt(np.abs(exp)) + (u*sc)**2
    else:
        return
    d = np.abs(got - exp)
    c.check((d <= tol).all(), mech, f'{op} of values up to {sc:.3g}: '
            f'got {got.ravel()[d.argmax()]!r}, '
            f'expected {exp.ravel()[d.argmax()]!r}')


@P06.section(100)
def large(c):
    """many paths, times or values; narrow distributions"""
    ax = c.choice('pvt')
    big = c.choice([1025, 4099, 20011, 70001, 140002])
    small = c.int(1, 3)
    shape = dict(p=(small, big), t=(big, small),
                 v=(small, big//3, 3, small))[ax]
    if ax != 'v' and c.chance(.5):
        shape = shape[:1] + (2,) + shape[1:]
    x = c.rng.normal(size=shape)*10.**c.int(-3, 3)
    off = c.choice([0., 1e3, -1e5, 1e7])
    x = x + off
    dt = c.choice(['f8', 'f8', 'f4', 'i8'])
    x = np.round(x).astype(dt) if dt == 'i8' else x.astype(dt)
    t = np.arange(shape[0])*.5
    c.sig(ax=ax, shape=shape, dt=dt, off=off)
    p = process(t, x=x)
    k = dict(p=-1, t=0, v=tuple(range(1, len(shape) - 1)))[ax]
    z = x.astype(np.longdouble)
    n = np.prod([x.shape[i] for i in np.atleast_1d(k)])
    sc = float(np.abs(x).max())
    m = z.mean(axis=k, keepdims=True)
    v = ((z - m)**2).mean(axis=k, keepdims=True)
    d = c.choice([0, 1, 2])
    v = v*n/(n - d)
    exp = dict(min=z.min(axis=k, keepdims=True),
               max=z.max(axis=k, keepdims=True),
               sum=m*n, mean=m, var=v, std=np.sqrt(v))
    for op, e in exp.items():
        kw = dict(ddof=d) if op in ('var', 'std') else {}
        q = getattr(p, ax + op)(**kw)
        e = e.astype(float)
        if ax == 'v':
            e = e.reshape(e.shape[0], e.shape[-1])
        c.check(q.shape == e.shape, 'summary-shape')
        c.ev('large_summaries')
        if dt == 'f4' and ax == 'p' and op in ('var', 'std') and \
                abs(off) <= 1e3 and e.min() > .1:
            # pairwise single precision sums of squared deviations
            c.close(q.x.astype(float), e, 'summary-large', f'f4 {op}',
                    rtol=5e-3)
            c.ev('narrow_distributions')
        if dt == 'f4':
            # single precision sums along the first axis accumulate errors
            if not off:
                c.close(q.x.astype(float), e, 'summary-large', op,
                        rtol=2e-2, atol=n*sc*2e-6 if op == 'sum' else
                        2e-6*sc)
        else:
            c.close(q.x.astype(float), e, 'summary-large', f'{ax}{op}',
                    rtol=1e-9 if op not in ('var', 'std') else 1e-4)
            _accurate(c, op, q.x, e, sc, 'summary-accuracy')


@P06.section(10400)
def summary(c):
    big = c.chance(.1)
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8']),
                       n=None if big else c.int(1, 7),
                       paths=None if big else c.choice([1, 2, 3, 9, 33]))
    ax = c.choice('pvt')
    op = c.choice(['min', 'max', 'sum', 'mean', 'var', 'std'])
    kw, ddof = {}, 0
    if op in ('var', 'std') and c.chance(.5):
        ddof = c.choice([0, 1, 2])
        kw['ddof'] = ddof
    exp = _summary_oracle(ax, op, x, ddof)
    if np.isnan(exp).any():    # no degrees of freedom left
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = getattr(p, ax + op)(**kw)
        c.sig(ax=ax, op=op, ddof=ddof, shape=x.shape, dtype=x.dtype)
        c.check(q.shape == exp.shape, 'summary-shape')
        c.check(not np.isfinite(q.x).any(), 'summary-no-freedom',
                f'{ax}{op} ddof={ddof} {x.shape}')
        c.ev('undefined_summaries')
        return
    rtol = 1e-4 if x.dtype == np.float32 else 1e-9
    if op in ('sum', 'mean', 'var', 'std') and c.chance(.25) \
            and not (x.dtype == np.int64 and op == 'sum'):
        kw['dtype'] = c.choice([np.float32, np.float64])
        rtol = 1e-4
    # (numpy 1.26 reductions with out misbehave on negative strides)
    useout = c.chance(.25) and min(p.strides) > 0
    odt = kw.get('dtype', np.float64 if x.dtype == np.int64 and
                 op in ('mean', 'var', 'std') else x.dtype)
    if useout:
        kw['out'] = np.empty(exp.shape, odt)
    c.sig(ax=ax, op=op, kw=sorted(kw), ddof=ddof, shape=x.shape,
          dtype=x.dtype)
    c.ev('summaries')
    q = getattr(p, ax + op)(**kw)
    c.check(type(q) is process, 'summary-type')
    c.check(q.shape == exp.shape, 'summary-shape',
            f'{ax}{op} {q.shape} vs {exp.shape}')
    sc = float(np.abs(x).max())
    c.close(q.x.astype(float), exp, 'summary-values', f'{ax}{op} {kw}',
            rtol=rtol, atol=rtol*sc*(sc if op == 'var' else 1)
            * (10 if op == 'std' and rtol > 1e-5 else 1)
            if op not in ('min', 'max') else 0)
    if rtol < 1e-6 and x.dtype == np.float64:
        _accurate(c, op, q.x, exp, sc, 'summary-accuracy')
    if op in ('min', 'max'):
        c.equal(q.x.astype(float), exp, 'summary-values')
    c.equal(q.t, t[:1] if ax == 't' else t, 'summary-timeline')
    if 'dtype' in kw:
        c.check(q.dtype == kw['dtype'], 'summary-dtype', f'{q.dtype}')
    if useout:
        c.check(np.shares_memory(q.x, kw['out']), 'summary-out')
        c.close(kw['out'].astype(float), q.x.astype(float), 'summary-out')
    c.equal(p.x, x, 'summary-changed-process')
    c.equal(p.t, t, 'summary-changed-process')


@P06.section(1200)
def nonfinite(c):
    """nan and infinite values affect the summaries they enter, and no
    other"""
    n, vs, m = c.int(1, 6), gen.dims(c, 2), c.choice([1, 2, 5, 40])
    t = gen.timeline(c, n)
    x = spoil(c, c.rng.normal(size=(n,) + vs + (m,)))
    if c.chance(.2):
        x = x.astype('f4')
    p = process(t, x=x.copy())
    ax = c.choice('pvt')
    op = c.choice(['min', 'max', 'sum', 'mean', 'var', 'std', 'cumsum'])
    ax = 't' if op == 'cumsum' else ax
    c.sig(ax=ax, op=op, vs=vs, n=n, m=m, dt=x.dtype)
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        q = getattr(p, ax + op)()
        w = x.astype(float)
        if op == 'cumsum':
            exp = np.array([[math.nan]*w[0].size]*n).reshape(x.shape)
            for k in np.ndindex(x.shape[1:]):
                a = 0.
                for i in range(n):
                    a = a + float(w[(i,) + k])
                    exp[(i,) + k] = a
        else:
            w = np.moveaxis(w, 0, -1).reshape(vs + (m, n)) if ax == 't' \
                else w if ax == 'p' else \
                np.moveaxis(w, -1, 1).reshape(n, m, -1)
            exp = np.array([getattr(np, op)(w[k])
                            for k in np.ndindex(w.shape[:-1])])
            exp = exp.reshape(w.shape[:-1])
            exp = exp[..., np.newaxis] if ax == 'p' else \
                exp[np.newaxis] if ax == 't' else exp
    same_values(c, q.x, exp, 'summary-nonfinite', f'{ax}{op}',
                rtol=1e-9 if x.dtype == 'f8' else 1e-3)
    c.equal(p.x.view('i%d' % x.itemsize), x.view('i%d' % x.itemsize),
            'summary-changed-process')
    c.ev('summaries')


@P06.section(2400)
def other_dtypes(c):
    """booleans, small integers, complex numbers; precision on request"""
    dt = c.choice(['?', '?', 'i1', 'u1', 'i2', 'i4', 'u4', 'c8', 'c16', 'f4',
                   'f2'])
    n, m = c.int(1, 6), c.choice([1, 2, 7, 150, 400])
    vs = gen.dims(c, 2)
    t = gen.timeline(c, n)
    shape = (n,) + vs + (m,)
    r = c.rng
    if dt == '?':
        x = r.random(shape) < c.choice([.1, .5, .9])
    elif dt[0] in 'iu':
        ii = np.iinfo(dt)
        x = r.integers(max(ii.min, -9999), min(ii.max, 9999), size=shape,
                       endpoint=True).astype(dt)
    elif dt[0] == 'c':
        x = (r.normal(size=shape) + 1j*r.normal(size=shape)).astype(dt)
    else:
        x = (c.choice([0., 10., 1000.]) + r.normal(size=shape)).astype(dt)
    p = process(t, x=x.copy())
    ax = c.choice('pvt')
    op = c.choice(['sum', 'mean', 'var', 'std', 'min', 'max', 'cumsum'])
    if op == 'cumsum':
        ax = 't'
    if dt[0] == 'c' and op in ('min', 'max'):
        op = 'mean'
    kw = {}
    if dt[0] == 'f' and op not in ('min', 'max') and c.chance(.7):
        kw['dtype'] = np.float64
    c.sig(ax=ax, op=op, dt=dt, vs=vs, m=m, n=n, kw=sorted(kw))
    c.ev('summaries')
    q = getattr(p, ax + op)(**kw)
    c.check(type(q) is process, 'summary-type')
    w = x.astype('c16' if dt[0] == 'c' else
                 'i8' if dt[0] in '?iu' else 'f8')
    axes = {'p': (-1,), 't': (0,), 'v': tuple(range(1, w.ndim - 1))}[ax]
    if op == 'cumsum':
        exp = np.array([w[:i + 1].sum(axis=0) for i in range(n)])
    elif op in ('sum', 'min', 'max'):
        exp = getattr(w, op)(axis=axes, keepdims=ax != 'v')
    else:
        exp = w.mean(axis=axes, keepdims=True)
        if op != 'mean':
            exp = (np.abs(w - exp)**2).mean(axis=axes, keepdims=True)
        if op == 'std':
            exp = np.sqrt(exp)
        if ax == 'v':
            exp = exp.reshape(n, m)
    c.check(q.shape == exp.shape, 'summary-shape', f'{q.shape}')
    c.equal(q.t, t[:1] if ax == 't' and op != 'cumsum' else t,
            'summary-timeline')
    got = np.asarray(q.x)
    got = got.astype(w.dtype if w.dtype.kind == 'c' and op in
                     ('sum', 'mean', 'cumsum') else 'f8')
    sc = float(np.abs(w).max()) + 1
    rtol = 1e-9 if dt[0] in '?iu' or kw or dt == 'c16' else \
        5e-4 if dt in ('f4', 'c8') else .05
    if dt == 'f2' and not kw and sc > 100:
        return
    if dt[0] in '?iu' and op in ('sum', 'min', 'max', 'cumsum'):
        c.equal(got, exp.astype('f8'), 'summary-values', f'{ax}{op} {dt}')
    elif not (op == 'std' and rtol > 1e-5):
        c.close(got, exp, 'summary-values', f'{ax}{op} {dt} {kw}',
                rtol=rtol, atol=rtol*sc*(
                    sc if op == 'var' else m*n if op == 'cumsum' else 1))
    if dt == 'f4' and not kw and op in ('var', 'std') and m*n > 2:
        # deviations, even if small compared to values, are accounted for
        big = float(np.abs(x).max())
        v = exp.astype(float)
        tol = 1e-5*v + 3e-5*(big if op == 'std' else big*np.sqrt(v)
                             + 1e-5*big*big)
        c.check((np.abs(got - v) <= tol).all(), 'summary-accuracy',
                f'{ax}{op} f4 {np.abs(got - v).max()} {tol.min()}')
    c.equal(p.x, x, 'summary-changed-process')


# =====================================================================
# P07 time calculus
# =====================================================================
P07 = new(
    'P07', 'random non-uniform timelines and values: increments, weighted '
    'increments, derivative, integral, cumulated sum vs explicit loops, and '
    'the derivative/integral inverse relations; non-trivial: distinct '
    '(operation, arguments, shape)')


@P07.section(5600)
def tdiff(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8']),
                       n=c.int(2, 40))
    e = c.choice([0, 0, 1, .5, 2, 1.5, 0.25, -1, -.5])
    fwd = c.choice([True, False, None, 1, 0])
    kw = {}
    if e or c.chance(.5):
        kw['dt_exp'] = e
    if fwd is not None:
        kw['fwd'] = fwd
    isf = True if fwd is None else bool(fwd)
    c.sig(e=e, fwd=fwd, shape=x.shape, dtype=x.dtype)
    if c.chance(.5):
        p.dt, p.dtx
    q = p.tdiff(**kw)
    tf = t.astype(float)
    exp = np.array([(x[i+1].astype(float) - x[i])/(tf[i+1] - tf[i])**e
                    for i in range(t.size - 1)])
    rtol = 1e-9 if x.dtype != np.float32 and t.dtype != np.float32 else 1e-4
    c.check(type(q) is process, 'tdiff-type')
    c.equal(q.t, t[:-1] if isf else t[1:], 'tdiff-timeline')
    c.close(q.x, exp, 'tdiff-values', f'{kw}', rtol=rtol)
    c.equal(p.x, x, 'tdiff-changed-process')
    if e == 1 and isf:
        r = p.tder()
        c.close(r.x, exp, 'tder-values', rtol=rtol)
        c.equal(r.t, t[:-1], 'tder-timeline')


@P07.section(600)
def narrow_dtypes(c):
    """processes of flags, of narrow integers, of half precision numbers on
    integer and float timelines: weighted increments and integrals are as
    accurate as the type allows, and do not overflow"""
    dt = c.choice(['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'i8'])
    n, paths, vs = c.choice([2, 3, 20, 300]), c.int(1, 4), gen.dims(c)
    t = gen.timeline(c, n, c.choice(['int', 'rand', 'cross', 'geom']))
    if t.dtype.kind == 'i':
        t = t*c.choice([1, 1, 7, 365])
    hi = {'?': 2, 'i1': 60, 'u1': 120}.get(dt, 10000)
    x = c.rng.integers(0, hi, size=(n,) + vs + (paths,))
    if dt in ('u1', 'u2'):
        x = np.sort(x, axis=0)  # increments must be representable
    elif dt != '?':
        x = x - hi//2
    x = x.astype(dt)
    p = process(t, x=x)
    tf = t.astype(float)
    dtf = np.diff(tf).reshape((-1,) + (1,)*(x.ndim - 1))
    c.sig(dt=dt, tk=t.dtype, n=n, vs=vs)
    exp = np.zeros(x.shape)
    exp[1:] = np.cumsum(x[:-1].astype(float)*dtf, axis=0)
    q = p.tint()
    c.equal(q.t, t, 'tint-timeline')
    c.close(q.x.astype(float), exp, 'tint-values', f'{dt} process', rtol=1e-9,
            atol=1e-9*float(np.abs(exp).max()) + 1e-300)
    if dt != '?':
        e = c.choice([1, .5, 2, -1, -2, -.5, 1.5])
        d = np.diff(x.astype(float), axis=0)/dtf**e
        q = p.tdiff(dt_exp=e, fwd=c.chance(.5))
        c.close(q.x.astype(float), d, 'tdiff-values',
                f'{dt} process, dt_exp={e}', rtol=1e-9, atol=1e-300)
    c.equal(p.x, x, 'calculus-changed-process')


@P07.section(400)
def complex_values(c):
    """processes of complex values"""
    n, vs, paths = c.choice([2, 3, 10, 40]), gen.dims(c), c.int(1, 4)
    t = gen.timeline(c, n, c.choice(['int', 'rand', 'cross', 'geom']))
    x = c.rng.normal(size=(n,) + vs + (paths,)) + \
        1j*c.rng.normal(size=(n,) + vs + (paths,))
    dt = c.choice(['c16', 'c16', 'c8'])
    x = x.astype(dt)
    tol = dict(rtol=1e-9) if dt == 'c16' else dict(rtol=1e-3)
    c.sig(n=n, vs=vs, dt=dt, tk=t.dtype)
    p = process(t, x=x)
    d = np.diff(t.astype(float)).reshape((-1,) + (1,)*(x.ndim - 1))
    exp = np.zeros(x.shape, complex)
    exp[1:] = np.cumsum(x[:-1]*d, axis=0)
    sc = float(np.abs(exp).max())
    q = p.tint()
    c.check(q.dtype.kind == 'c', 'tint-complex', f'{q.dtype}')
    c.equal(q.t, t, 'tint-timeline')
    c.close(q.x.astype(complex), exp, 'tint-values', dt, atol=sc*1e-5
            if dt == 'c8' else sc*1e-10, **tol)
    e = c.choice([0, 1, .5, 2, -1])
    fwd = c.chance(.5)
    q = p.tdiff(dt_exp=e, fwd=fwd)
    exp = (x[1:].astype(complex) - x[:-1])/d**e
    c.equal(q.t, t[:-1] if fwd else t[1:], 'tdiff-timeline')
    c.close(q.x.astype(complex), exp, 'tdiff-values', dt,
            atol=float(np.abs(exp).max())*tol['rtol'], **tol)
    exp = (x[1:].astype(complex) - x[:-1])/d
    c.close(p.tder().x.astype(complex), exp, 'tder-values', dt,
            atol=float(np.abs(exp).max())*tol['rtol'], **tol)
    c.equal(p.x, x, 'calculus-changed-process')


@P07.section(100)
def large(c):
    """long timelines: integrals and increments at a few thousand points"""
    n, paths = c.choice([1000, 4097, 10001, 65537]), c.int(1, 3)
    t = np.cumsum(.1 + c.rng.random(n))*c.choice([1., 1e-9, 1e6])
    x = c.rng.normal(size=(n, paths))
    c.sig(n=n, paths=paths)
    p = process(t, x=x)
    dt = np.diff(t).astype(np.longdouble)[:, np.newaxis]
    exp = np.zeros(x.shape, np.longdouble)
    exp[1:] = np.cumsum(x[:-1]*dt, axis=0)
    c.close(p.tint().x, exp.astype(float), 'tint-values', 'long timeline',
            rtol=1e-10)
    exp = (x[1:].astype(np.longdouble) - x[:-1])/dt
    c.close(p.tder().x, exp.astype(float), 'tder-values', 'long timeline',
            rtol=1e-10)
    c.close(p.tcumsum().x, np.cumsum(x.astype(np.longdouble), axis=0)
            .astype(float), 'tcumsum-values', 'long timeline', rtol=1e-10)
    c.close(p.tdiff(dt_exp=.5).x,
            ((x[1:] - x[:-1])/np.sqrt(dt)).astype(float), 'tdiff-values',
            'long timeline', rtol=1e-10)


@P07.section(4000)
def calculus(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8']),
                       n=c.choice([2, 2, 3, 5, 50, c.int(2, 200)]))
    c.sig(shape=x.shape, dtype=x.dtype)
    tf = t.astype(float)
    n = t.size
    rtol = 1e-9 if x.dtype != np.float32 and t.dtype != np.float32 else 1e-3
    # derivative
    d = p.tder()
    exp = np.array([(x[i+1].astype(float) - x[i])/(tf[i+1] - tf[i])
                    for i in range(n-1)])
    c.equal(d.t, t[:-1], 'tder-timeline')
    c.close(d.x, exp, 'tder-values', rtol=rtol)
    # integral
    q = p.tint()
    exp = np.zeros(x.shape)
    for i in range(1, n):
        exp[i] = exp[i-1] + x[i-1]*(tf[i] - tf[i-1])
    c.equal(q.t, t, 'tint-timeline')
    c.close(q.x, exp, 'tint-values', rtol=rtol)
    # inverse relations
    r = q.tder()
    sc = float(np.abs(exp).max())/float(np.diff(tf).min())
    c.close(r.x, x[:-1].astype(float), 'tint-tder', rtol=rtol,
            atol=1e-12*sc if rtol < 1e-6 else 1e-5*sc)
    c.equal(r.t, t[:-1], 'tint-tder')
    if n > 2:
        r = p.tder().tint()
        c.close(r.x, (x[:-1] - x[:1]).astype(float), 'tder-tint', rtol=rtol,
                atol=10*rtol*float(np.abs(x).max()))
    c.equal(p.x, x, 'calculus-changed-process')
    c.equal(p.t, t, 'calculus-changed-process')


@P07.section(800)
def nonfinite(c):
    """nan and infinite values: path by path, as of float operations"""
    n, vs, m = c.choice([2, 3, 8, 40]), gen.dims(c, 2), c.int(1, 5)
    t = gen.timeline(c, n)
    x = spoil(c, c.rng.normal(size=(n,) + vs + (m,)))
    p = process(t, x=x.copy())
    tf = t.astype(float)
    op = c.choice(['tdiff', 'tdiff', 'tder', 'tint', 'tcumsum'])
    c.sig(op=op, n=n, vs=vs, m=m)
    exp = np.zeros(x.shape if op in ('tint', 'tcumsum')
                   else (n - 1,) + x.shape[1:])
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e = c.choice([0, .5, 1]) if op == 'tdiff' else 1
        q = p.tdiff(dt_exp=e) if op == 'tdiff' else getattr(p, op)()
        for k in np.ndindex(x.shape[1:]):
            a = 0.
            y = x[(slice(None),) + k]
            for i in range(n):
                if op == 'tcumsum':
                    a = exp[(i,) + k] = a + y[i]
                elif op == 'tint':
                    exp[(i,) + k] = a
                    if i < n - 1:
                        a = a + y[i]*(tf[i+1] - tf[i])
                elif i < n - 1:
                    exp[(i,) + k] = (y[i+1] - y[i])/(tf[i+1] - tf[i])**e
    same_values(c, q.x, exp, op + '-nonfinite',
                rtol=1e-9 if t.dtype != np.float32 else 1e-3)
    c.ev('calculus_nonfinite')


@P07.section(2400)
def tcumsum(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8']))
    kw = {}
    if c.chance(.3):
        kw['dtype'] = c.choice([np.float64, np.float64, np.float32])
    exp = np.zeros(x.shape)
    a = np.zeros(x.shape[1:])
    for i in range(t.size):
        a = a + x[i]
        exp[i] = a
    if c.chance(.3):
        kw['out'] = np.empty(x.shape, kw.get('dtype', x.dtype))
    c.sig(shape=x.shape, dtype=x.dtype, kw=sorted(kw))
    q = p.tcumsum(**kw)
    c.check(type(q) is process, 'tcumsum-type')
    c.equal(q.t, t, 'tcumsum-timeline')
    c.close(q.x.astype(float), exp, 'tcumsum-values',
            rtol=1e-9 if kw.get('dtype', x.dtype) != np.float32 else 1e-3)
    c.check(q.dtype == kw.get('dtype', x.dtype), 'tcumsum-dtype',
            f'{x.dtype} {kw} {q.dtype}')
    if 'out' in kw:
        c.check(np.shares_memory(kw['out'], q.x), 'tcumsum-out')
    c.equal(p.x, x, 'tcumsum-changed-process')


# =====================================================================
# P08 chf, cdf
# =====================================================================
P08 = new(
    'P08', 'random processes, time arguments (none, scalar, arrays of any '
    'rank, inside/outside the timeline) and evaluation points, incl. points '
    'exactly equal to sample values; oracle: scalar loops; non-trivial: '
    'distinct (kind, shapes)')


@P08.section(4000)
def estimators(c):
    p, t, x = gen.proc(c, sd, dtype=c.choice(['f8', 'f8', 'f4', 'i8', 'i2',
                                              '?']),
                       n=c.choice([1, 2, 5]), vshape=gen.dims(c, hi=3),
                       paths=c.choice([1, 2, 5, 20]))
    plain = x.dtype == np.float64
    tq = c.choice([None, None, (), (3,), (2, 2)])
    kind = c.choice(['chf', 'cdf'])
    ushape = c.choice([(), (1,), (4,), (2, 3)])
    if x.dtype.kind == 'i' and kind == 'chf' and c.chance(.4):
        # large integers
        x = (x*np.asarray(c.choice([1, 1000, 100000]))).astype(
            c.choice([np.int32, np.int64]))
        p = process(t, x=x)
        u = c.rng.integers(-20, 21, size=ushape)*c.choice([1, 10**4])
        u = u.astype(c.choice([np.int32, np.int64, np.int16]))
        tq = None
    elif kind == 'chf':
        u = c.rng.normal(size=ushape)*c.choice([.3, 1, 5])
    else:
        # include ties with the sample values
        u = np.where(c.rng.random(ushape) < (.5 if tq is None else 0),
                     c.rng.choice(x.ravel(), size=ushape).astype(float),
                     c.rng.normal(size=ushape)*np.abs(x).max())
    c.sig(kind=kind, tq=tq, ushape=ushape, shape=x.shape,
          dtype=x.dtype.char)
    if tq is None:
        form = c.choice(['pos', 'kw', 'none'])
        name = 'u' if kind == 'chf' else 'x'
        f = getattr(p, kind)
        got = f(u) if form == 'pos' else f(**{name: u}) if form == 'kw' \
            else f(None, u)
        y, tshape = x, t.shape
    else:
        s = _query(c, t, tq)
        near = c.chance(.3)
        if near:
            # close to, but not on, the timeline
            s = t.astype(float)
            s = s + c.rng.choice([-1, 1], t.shape)*10**-c.rng.uniform(5.5, 9)
            tq = s.shape
        pk = c.choice([None, None, 'zero', 'nearest'])
        if pk and t.size > 1:
            p.interp_kind = pk
        y = interp_oracle(t, x, np.asarray(s, float), 'linear')
        if t.dtype == np.float32 or not plain or pk:
            y = p(s)
        got = getattr(p, kind)(s, u)
        tshape = tq
    vs = x.shape[1:-1]
    c.check(got.shape == tshape + np.shape(u) + vs, 'estimator-shape',
            f'{kind} {got.shape} vs {tshape} {np.shape(u)} {vs}')
    exp = np.empty(tshape + np.shape(u) + vs,
                   complex if kind == 'chf' else float)
    for i in np.ndindex(tshape):
        for j in np.ndindex(np.shape(u)):
            for k in np.ndindex(vs):
                v = y[i + k].astype(float)
                uj = float(np.asarray(u)[j])
                if kind == 'chf':
                    exp[i + j + k] = np.mean(np.cos(uj*v)) + \
                        1j*np.mean(np.sin(uj*v))
                else:
                    exp[i + j + k] = sum(float(z) <= uj for z in v)/len(v)
    c.check(got.dtype == exp.dtype, 'estimator-dtype', f'{got.dtype}')
    c.close(got, exp, 'estimator-values', kind, rtol=1e-9
            if np.asarray(u).dtype.kind != 'i' else 1e-6,
            atol=1e-6 if np.asarray(u).dtype.kind == 'i' else 1e-9*float(np.abs(x).max()) if kind == 'chf' and plain
            and tq is not None else 0)


@P08.section(800)
def nonfinite(c):
    """nan and infinite data, or evaluation points"""
    n, vs, m = c.int(1, 4), gen.dims(c, 2), c.choice([1, 2, 5, 40])
    t = gen.timeline(c, n)
    x = c.rng.normal(size=(n,) + vs + (m,))
    if c.chance(.8):
        spoil(c, x)
    u = c.rng.normal(size=c.choice([(), (3,), (2, 2)]))
    u = np.where(c.rng.random(u.shape) < .3, c.rng.choice(x.ravel(), u.shape),
                 u)
    if c.chance(.5):
        u = np.where(c.rng.random(u.shape) < .4, c.choice([np.inf, -np.inf]),
                     u)
    c.sig(n=n, vs=vs, m=m, u=u.shape, inf=bool(np.isinf(u).any()))
    p = process(t, x=x.copy())
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = p.cdf(u)
        w = np.where(np.isfinite(u), u, .7)
        got2 = p.chf(w)
        exp = np.zeros(got.shape)
        exp2 = np.zeros(got.shape, complex)
        for i in range(n):
            for j in np.ndindex(u.shape):
                for k in np.ndindex(vs):
                    y = [float(z) for z in x[(i,) + k]]
                    exp[(i,) + j + k] = sum(z <= float(u[j]) for z in y)/m
                    exp2[(i,) + j + k] = sum(
                        complex(math.cos(w[j]*z), math.sin(w[j]*z))
                        if math.isfinite(z) else math.nan for z in y)/m
    c.equal(got, exp, 'estimator-nonfinite', 'cdf')
    f = ~np.isnan(exp2)
    c.check((np.isnan(got2) == ~f).all(), 'estimator-nonfinite', 'chf')
    c.close(got2[f], exp2[f], 'estimator-nonfinite', 'chf', rtol=1e-9,
            atol=1e-12)


@P08.section(150)
def large(c):
    """large samples"""
    paths = c.choice([1000, 4096, 4097, 10007, 65537, 140001])
    n, vshape = c.int(1, 3), c.choice([(), (2,), (1, 2)])
    t = gen.timeline(c, n, 'rand')
    x = c.rng.normal(size=(n,) + vshape + (paths,))
    skew = c.chance(.5)
    if skew:
        # the first and last paths are not like the others
        x = np.sort(x, axis=-1)
    ties = c.choice([None, None, 'float', 'int'])
    if ties:
        # many paths share the same value
        x = np.round(x*c.choice([1, 4]))
        if ties == 'int':
            x = x.astype(int)
    p = process(t, x=x)
    u = c.rng.normal(size=c.choice([(), (3,), (2, 2), (17,)]))
    if ties:
        u = np.where(c.rng.random(u.shape) < .6, np.round(u), u)
    c.sig(paths=paths, n=n, vshape=vshape, ushape=u.shape, skew=skew)
    uu = u.reshape((1,) + u.shape + (1,)*(len(vshape) + 1))
    xx = x.reshape((n,) + (1,)*u.ndim + vshape + (paths,))
    c.close(p.chf(u), np.exp(1j*uu*xx).sum(axis=-1)/paths,
            'estimator-large', 'chf', rtol=1e-9)
    c.equal(p.cdf(u), (xx <= uu).sum(axis=-1)/paths, 'estimator-large')
    s = _query(c, t, (2,))
    y = interp_oracle(t, x, s, 'linear') if not ties else p(s)
    yy = y.reshape((2,) + (1,)*u.ndim + vshape + (paths,))
    c.close(p.chf(s, u), np.exp(1j*uu*yy).sum(axis=-1)/paths,
            'estimator-large', 'chf(t, u)', rtol=1e-8)
    c.close(p.cdf(s, u), (yy <= uu).sum(axis=-1)/paths, 'estimator-large',
            'cdf(t, x)', rtol=0, atol=1.5/paths if not ties else 0)


@P08.section(480)
def missing(c):
    p, t, x = gen.proc(c, sd)
    c.sig(shape=x.shape)
    c.raises(TypeError, lambda: p.chf(), 'missing-argument')
    c.raises(TypeError, lambda: p.cdf(), 'missing-argument')


# =====================================================================
# P05-P08: no hidden state
# =====================================================================

QUERIES = dict(
    P05={
        'call': lambda p, a: p(a['s'], kind=a['kind']),
        'call_default': lambda p, a: p(a['s']),
        'inc': lambda p, a: p(a['s'], a['ds'], kind=a['kind']),
        'interp': lambda p, a: p.interp(kind=a['kind'])(a['s']),
        'rebase': lambda p, a: p.rebase(a['u'], kind=a['kind']),
    },
    P06={k: (lambda p, a, k=k: getattr(p, k)()) for k in (
        'pmin', 'pmax', 'psum', 'pmean', 'pvar', 'pstd', 'vmin', 'vmax',
        'vsum', 'vmean', 'vvar', 'vstd', 'tmin', 'tmax', 'tsum', 'tmean',
        'tvar', 'tstd', 'tcumsum')},
    P07={
        'tdiff': lambda p, a: p.tdiff(),
        'tdiff_half': lambda p, a: p.tdiff(dt_exp=.5),
        'tdiff_back': lambda p, a: p.tdiff(fwd=False, dt_exp=1),
        'tder': lambda p, a: p.tder(),
        'tint': lambda p, a: p.tint(),
        'dt': lambda p, a: p.dt,
        'dtx': lambda p, a: p.dtx,
    },
    P08={
        'chf': lambda p, a: p.chf(a['u0']),
        'chf_t': lambda p, a: p.chf(a['s'], a['u0']),
        'cdf': lambda p, a: p.cdf(a['x0']),
        'cdf_t': lambda p, a: p.cdf(a['s'], a['x0']),
    })


def hidden_state(prop):
    """whatever was asked before, and whatever happened to its values in
    the meantime, a process answers as a newly built one"""
    def state(c):
        n = c.choice([2 if prop == 'P07' else 1, 2, 4, 4, 6, 9])
        t = gen.timeline(c, n, c.choice(['rand', 'unif', 'int', 'cross']))
        vshape, paths = gen.dims(c, 2), c.choice([1, 2, 5])
        x = c.rng.normal(size=t.shape + vshape + (paths,))
        p = process(t.copy(), x=x.copy())
        kinds = ['linear', 'nearest', 'zero', 'previous']
        if n > 3:
            kinds += ['quadratic', 'cubic']
        ops = []
        used = []
        for step in range(c.int(3, 8)):
            k = c.choice(['query', 'query', 'query', 'set', 'iop', 'view',
                          'vindex', 'kind', 'copy', 'derived', 'newt',
                          'out', 'shape'])
            if k == 'set':
                p.x[c.int(0, n - 1)] = c.rng.normal()
            elif k == 'iop':
                if c.chance(.5):
                    p += 1.5
                else:
                    p *= -.5
            elif k == 'view':
                p[...] += c.rng.normal(size=p.shape)
            elif k == 'vindex':
                q = p['t', c.int(0, n - 1)]
                q.x[...] = c.rng.normal()
            elif k == 'kind':
                p.interp_kind = c.choice(kinds)
            elif k == 'out':
                np.add(p, 1., out=p.x)
            elif k == 'copy':
                kind = p.interp_kind
                p = c.choice([p.pcopy, p.xcopy, p.tcopy])()
                p.interp_kind = kind
            elif k == 'derived':
                p = c.choice([lambda: p*2., lambda: p['p', :],
                              lambda: -p, lambda: p['t', :]])()
            elif k == 'shape':
                p = p.shapeas((1,) + p.vshape)
            elif k == 'newt' and prop != 'P07':
                # (dt is documented not to reflect this)
                p.t = p.t*2 + 1
            elif k == 'newt':
                p = process(p.t*2 + 1, x=p.x)
            if k != 'query':
                ops.append(k)
                continue
            lo, hi = float(p.t[0]), float(p.t[-1])
            a = dict(kind=c.choice(kinds + [None]),
                     s=c.rng.uniform(lo - .5, hi + .5,
                                     size=c.choice([(), (3,), (2, 2)])),
                     ds=c.rng.normal(), u0=c.rng.normal(size=3),
                     x0=c.rng.normal(size=2))
            a['u'] = np.sort(c.rng.uniform(lo - .5, hi + .5, size=3))
            if c.chance(.3):
                a['s'] = np.asarray(p.t, float)
            names = list(QUERIES[prop])
            name = c.choice(used + names) if used else c.choice(names)
            used.append(name)
            f = QUERIES[prop][name]
            before = p.x.copy()
            got = f(p, a)
            fresh = process(np.array(p.t), x=np.array(p.x))
            fresh.interp_kind = p.interp_kind
            exp = f(fresh, a)
            c.check(type(got) is type(exp), 'history-type', f'{name} {ops}')
            if type(exp) is process:
                c.equal(got.t, exp.t, 'history-timeline', f'{name} {ops}')
            c.close(np.asarray(got), np.asarray(exp), 'history-values',
                    f'{name} {a["kind"]} after {ops}', rtol=1e-12)
            c.equal(p.x, before, 'query-changed-process', name)
            c.ev('histories_compared')
            ops.append(name)
            # results of queries belong to the caller
            if c.chance(.3) and name not in ('dt', 'dtx'):
                np.asarray(got)[...] = -5. if np.asarray(
                    got).flags.writeable else 0.
                c.mutated(np.asarray(got))
                if prop != 'P06':
                    c.equal(p.x, before, 'result-aliases-process', name)
        c.sig(n=n, ops=ops, vshape=vshape)
    CHECKS[prop].section(1200)(state)


for _p in QUERIES:
    hidden_state(_p)
