"""Monitor of results already returned to the user.

Calls made by the workloads (not by sdepy itself) to sources, processes,
integrators and montecarlo objects are hooked: the arrays they return are
recorded, together with a copy of their content, and compared to it at the
end of the case, as no later operation may alter an earlier result; the
arrays they are given are compared to a copy of their content as soon as
the call returns, or fails.
"""
import functools
import os
import sys

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_SIZE, MAX_COUNT = 20000, 60

_kept, _altered = [], []
_depth = 0
_installed = False


def same(a, b):
    a, b = a.view(np.ndarray), b.view(np.ndarray)
    return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')


def _hook(f):
    @functools.wraps(f)
    def call(*args, **kwargs):
        global _depth
        caller = sys._getframe(1).f_code.co_filename
        top = _depth == 0 and (caller.startswith(VERIF) or
                               caller.endswith('kfun.py'))
        ins = [(a, a.copy()) for a in (*args[1:], *kwargs.values())
               if isinstance(a, np.ndarray) and 0 < a.size <= MAX_SIZE
               and a.dtype != object] if top else ()
        _depth += 1
        try:
            r = f(*args, **kwargs)
        finally:
            _depth -= 1
            for a, b in ins:
                if not same(a, b):
                    _altered.append(f'{f.__qualname__} {a.shape} {a.dtype}')
        if top and len(_kept) < MAX_COUNT:
            for a in (r if isinstance(r, tuple) else (r,)):
                if isinstance(a, np.ndarray) and 0 < a.size <= MAX_SIZE \
                        and a.dtype != object:
                    a = a.view(np.ndarray)
                    _kept.append((f.__qualname__, a, a.copy()))
        return r
    call._vf_hook = True
    return call


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import sdepy.infrastructure as I
    import sdepy.integration as J
    hooks = [(c, '__call__') for m in (I, J) for c in vars(m).values()
             if isinstance(c, type) and c.__module__ == m.__name__
             and '__call__' in vars(c)]
    # (antithetic sources are derived from unnamed classes)
    for m in (I, J):
        for c in list(vars(m).values()):
            if isinstance(c, type):
                hooks += [(b, '__call__') for b in c.__mro__
                          if b.__module__.startswith('sdepy.')
                          and '__call__' in vars(b)]
    hooks += [(I.montecarlo, k) for k in ('update', 'pdf', 'cdf')]
    hooks += [(I.process, k) for k in ('rebase', 'chf', 'cdf')]
    for c, k in hooks:
        f = vars(c).get(k)
        if callable(f) and not isinstance(f, type) \
                and not hasattr(f, '_vf_hook'):
            setattr(c, k, _hook(f))


def begin():
    global _depth
    _depth = 0
    _kept.clear()
    _altered.clear()


def mutated(x):
    """the workload has altered this result on purpose: stop following it"""
    _kept[:] = [k for k in _kept if not np.may_share_memory(k[1], x)]


def end():
    """(number of results observed, (mechanism, name) of the first altered
    array or None)"""
    n, bad = len(_kept), None
    if _altered:
        bad = ('argument-altered',
               f'an argument was altered by the call: {_altered[0]}')
    else:
        for name, a, b in _kept:
            if not same(a, b):
                bad = ('earlier-result-altered', 'a result was altered by '
                       f'later operations: {name} {a.shape} {a.dtype}')
                break
    _kept.clear()
    _altered.clear()
    return n, bad
