"""Monitors of objects with managed parameters (K01) and of the shortcuts
(K02): every observed behaviour is compared with the undecorated class or
function used in the plain way, and with a dictionary model of the stored
parameters."""
import inspect
import warnings

import numpy as np
import sdepy as sd

from ..core import Check
from .. import gen

CHECKS = {}


def new(prop, rule, **kw):
    CHECKS[prop] = Check(prop, rule, **kw)
    return CHECKS[prop]


NAMES = ['a', 'b', 'c', 'mu', 'sigma', 'x0', 'paths', 'alpha', 'p1', 'self_']
VARS = ['t', 'dt', 'x', 'y', 'k', 'u']


def val(c):
    k = c.choice(['i', 'f', 's', 'n', 'a', 't', 'z', 'd'])
    return {'i': c.int(-3, 9), 'f': float(c.rng.normal()), 's': 'txt',
            'n': None, 'a': np.arange(c.int(1, 3)), 't': (1, 2), 'z': 0,
            'd': False}[k]


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is b or (type(a) is type(b) and a.dtype == b.dtype and
                          np.array_equal(a, b))
    return a is b or (type(a) is type(b) and a == b)


def plain_class(c, record):
    """a random class, with keyword-only parameters, and its signature"""
    params = {k: val(c) for k in c.rng.permutation(NAMES)[:c.int(0, 5)]}
    nreq = c.choice([0, 0, 0, 1])
    required = list(params)[:nreq]
    vs = list(c.rng.permutation(VARS)[:c.int(1, 3)])
    vdef = {v: c.int(10, 99) for v in vs[1:] if c.chance(.5)}
    # a variable with a default cannot be followed by one without
    seen = False
    for v in vs:
        if v in vdef:
            seen = True
        elif seen:
            vdef[v] = c.int(10, 99)
    if c.chance(.3):
        vdef = {v: vdef.get(v, c.int(10, 99)) for v in vs}
    kwonly = c.chance(.2) and len(vs) > 1
    extra = c.chance(.25)    # **kwargs accepted by __init__
    P = {k: z for k, z in params.items()}
    sig = ', '.join((f'{k}' if k in required else f'{k}=P["{k}"]')
                    for k in params)
    call = []
    for i, v in enumerate(vs):
        if kwonly and i == len(vs) - 1:
            call.append('*')
        call.append(f'{v}=V["{v}"]' if v in vdef else v)
    init = ', '.join(filter(None, ['self', '*' if sig else '', sig,
                                   '**kwargs' if extra else '']))
    src = f'''
class K:
    """documentation of K"""
    def __init__({init}):
        self.got = dict({', '.join(f'{k}={k}' for k in params)}
                        {', ' if params else ''}
                        {'**kwargs' if extra else ''})
        self.calls = 0
        record('init', self, dict(self.got))
    def __call__(self, {', '.join(call)}):
        self.calls += 1
        record('call', self, dict({', '.join(f'{v}={v}' for v in vs)}))
        return (dict({', '.join(f'{v}={v}' for v in vs)}), dict(self.got))
    def method(self):
        return self.got
'''
    ns = dict(P=P, V=vdef, record=record)
    exec(src, ns)
    return ns['K'], params, required, vs, vdef, kwonly, extra


def make_call(c, vs, vdef, kwonly):
    """random variables: positional and keyword, and expected values;
    never empty (that would be an instantiation)"""
    full = {v: val(c) for v in vs}
    drop = [v for v in vs if v in vdef and c.chance(.3)]
    npos = c.int(0, len(vs) - (1 if kwonly else 0))
    pos, kw = [], {}
    for i, v in enumerate(vs):
        if v in drop:
            npos = min(npos, i)
            continue
        if i < npos:
            pos.append(full[v])
        else:
            kw[v] = full[v]
    if not pos and not kw:
        kw = {vs[-1]: full[vs[-1]]}
        if vs[0] not in vdef:
            kw[vs[0]] = full[vs[0]]
        drop = [v for v in vs if v not in kw]
    want = {v: (vdef[v] if v in drop else full[v]) for v in vs}
    # keyword variables in any order
    kw = {k: kw[k] for k in c.rng.permutation(list(kw))} if kw else kw
    return tuple(pos), kw, want


K01 = new(
    'K01', 'random histories of instantiations, derivations and '
    'evaluations of decorated classes and functions with random '
    'signatures, against the undecorated ones and a dictionary of expected '
    'parameters for each instance created so far; non-trivial: distinct '
    '(signature, history)', required=['evaluations', 'derivations',
                                      'rejections_observed'])


@K01.section(3000)
def classes(c):
    log = []
    K, params, req, vs, vdef, kwonly, extra = plain_class(
        c, lambda *a: log.append(a))
    sub = c.chance(.3)
    if sub:
        if c.chance(.5):
            W0 = sd.kfunc(K)

            class S(W0):
                """documentation of S"""

                def __call__(self, *a, **k):
                    raise AssertionError
            del S.__call__
            S.__init__ = K.__init__
            S.__call__ = K.__call__
            base = S
        else:
            class S(K):
                """documentation of S"""
            base = S
    else:
        base = K
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        W = sd.kfunc(base)
    c.check(sd.iskfunc(W), 'iskfunc')
    c.check(not sd.iskfunc(K), 'decorated-class-unchanged')
    c.check(issubclass(W, K) and W.__name__ == base.__name__ and
            W.__doc__ == base.__doc__ and
            W.__qualname__ == base.__qualname__, 'wrapper-attributes')
    pool = {**{k: 1 for k in params}, **({'extra1': 1, 'extra2': 1}
                                         if extra else {})}
    nodes = []     # (instance, model of given parameters)

    def some(force=()):
        return {**{k: val(c) for k in pool if c.chance(.4)},
                **{k: val(c) for k in force}}

    def merged(given):
        return {**params, **given}

    def state():
        return [(i, dict(i.params), dict(i.got), i.calls)
                for i, _ in nodes]

    hist = []
    for step in range(c.int(3, 12)):
        before = state()
        touched = None
        op = c.choice(['new', 'classcall', 'call', 'callparams', 'derive',
                       'derive', 'call'])
        if op in ('new', 'classcall') or not nodes:
            given = some(req)
            if op == 'classcall':
                pos, kw, want = make_call(c, vs, vdef, kwonly)
                mix = {**kw, **given}
                mix = {k: mix[k] for k in c.rng.permutation(list(mix))} \
                    if mix else mix
                n0 = len(log)
                r = W(*pos, **mix)
                c.check(same(r, (want, merged(given))), 'class-evaluation',
                        f'{r} != {(want, merged(given))}')
                c.check([z[0] for z in log[n0:]] == ['init', 'call'],
                        'class-evaluation-once')
                c.ev('evaluations')
            else:
                op = 'new'
                i = W(**given)
                c.check(isinstance(i, W) and isinstance(i, K) and
                        sd.iskfunc(i), 'instance-type')
                nodes.append((i, given))
        elif op == 'derive':
            p, g = c.choice(nodes)
            given = some()
            if not given:
                continue
            i = p(**given)
            c.check(type(i) is W and i is not p, 'derived-type')
            nodes.append((i, {**g, **given}))
            c.ev('derivations')
        else:
            p, g = c.choice(nodes)
            pos, kw, want = make_call(c, vs, vdef, kwonly)
            given = some() if op == 'callparams' else {}
            mix = {**given, **kw}
            mix = {k: mix[k] for k in c.rng.permutation(list(mix))} \
                if mix else mix
            n0 = len(log)
            r = p(*pos, **mix)
            c.check(same(r, (want, merged({**g, **given}))), 'evaluation',
                    f'{op}: {r} != {(want, merged({**g, **given}))}')
            ev = log[n0:]
            if given:
                c.check([z[0] for z in ev] == ['init', 'call'] and
                        ev[1][1] is not p, 'evaluation-with-parameters')
            else:
                # plain evaluation of the very same instance
                c.check([z[0] for z in ev] == ['call'] and ev[0][1] is p,
                        'evaluation-in-place')
                touched = p
            c.ev('evaluations')
        hist.append(op)
        # nothing else has changed
        for (i, pr, got, n) in before:
            c.check(same(dict(i.params), pr) and same(i.got, got) and
                    i.calls == n + (i is touched), 'other-instances',
                    f'after {op}')
        for i, g in nodes:
            c.check(same(i.params, merged(g)), 'params',
                    f'{i.params} != {merged(g)}')
            c.check(same(i.got, merged(g)), 'constructor-arguments')
            c.check(same(i.method(), merged(g)), 'methods')
    # all of the variables have defaults: no arguments, plain evaluation
    if nodes and set(vs) == set(vdef):
        i, g = c.choice(nodes)
        c.check(same(i(), (vdef, merged(g))), 'evaluation-defaults')
    # params is a copy, and is read only
    if nodes:
        i, g = c.choice(nodes)
        d = i.params
        d['zzz'] = 1
        c.check('zzz' not in i.params, 'params-copy')
        c.raises(AttributeError, lambda: setattr(i, 'params', {}),
                 'params-readonly')
        if not extra:
            c.raises(TypeError, lambda: i(unknown=1), 'unknown-parameter')
            c.raises(TypeError, lambda: W(unknown=1), 'unknown-parameter')
            # an instance is not affected by a rejected derivation
            c.check(same(i.params, merged(g)), 'params')
        if req and not extra:
            c.raises(TypeError, lambda: W(), 'missing-parameter')
    c.sig(params=sorted(params), req=req, vs=vs, vdef=sorted(vdef),
          kwonly=kwonly, extra=extra, sub=sub, hist=hist)


@K01.section(2500)
def functions(c):
    nv = c.int(1, 3)
    vs = list(c.rng.permutation(VARS)[:nv])
    params = {k: val(c) for k in c.rng.permutation(NAMES)[:c.int(0, 5)]}
    req = list(params)[:c.choice([0, 0, 0, 1])]
    vdef = {}
    for v in vs[::-1]:
        if c.chance(.6):
            break
        vdef[v] = c.int(10, 99)
    kwv = c.chance(.15) and nv > 1   # last variable is keyword only
    extra = c.chance(.25)
    call = []
    for i, v in enumerate(vs):
        if kwv and i == nv - 1:
            call.append('*')
        call.append(f'{v}=V["{v}"]' if v in vdef else v)
    if params and not kwv:
        call.append('*')
    call += [k if k in req else f'{k}=P["{k}"]' for k in params]
    if extra:
        call.append('**kwargs')
    src = f'''
def F({', '.join(call)}):
    """documentation of F"""
    return (dict({', '.join(f'{v}={v}' for v in vs)}),
            dict({', '.join([f'{k}={k}' for k in params] +
                            (['**kwargs'] if extra else []))}))
'''
    ns = dict(P=params, V=vdef)
    exec(src, ns)
    F = ns['F']
    W = sd.kfunc(nvar=nv)(F)
    c.check(sd.iskfunc(W) and not sd.iskfunc(F), 'iskfunc')
    c.check(W.__doc__ == F.__doc__ and W.__name__ == 'F' and
            W.__wrapped__ is F, 'wrapper-attributes')
    pool = list(params) + (['extra1'] if extra else [])

    def some(force=()):
        return {**{k: val(c) for k in pool if c.chance(.4)},
                **{k: val(c) for k in force}}
    nodes, hist = [], []
    dflt = {k: z for k, z in params.items() if k not in req}
    for step in range(c.int(3, 10)):
        op = c.choice(['new', 'classcall', 'call', 'callparams', 'derive'])
        if op == 'classcall' or not nodes and op not in ('new',):
            op = 'classcall'
            given = some(req)
            pos, kw, want = make_call(c, vs, vdef, kwv)
            r = W(*pos, **given, **kw)
            c.check(same(r, F(*pos, **kw, **given)) and
                    same(r, (want, {**params, **given})),
                    'function-evaluation', f'{r}')
            c.ev('evaluations')
        elif op == 'new':
            given = some()
            i = W(**given)
            c.check(isinstance(i, W) and sd.iskfunc(i), 'instance-type')
            nodes.append((i, given))
        elif op == 'derive':
            p, g = c.choice(nodes)
            given = some()
            if not given:
                continue
            i = p(**given)
            c.check(type(i) is W, 'derived-type')
            nodes.append((i, {**g, **given}))
            c.ev('derivations')
        else:
            p, g = c.choice(nodes)
            given = some() if op == 'callparams' else {}
            given = {**given, **{k: val(c) for k in req
                                 if k not in g and k not in given}}
            pos, kw, want = make_call(c, vs, vdef, kwv)
            r = p(*pos, **given, **kw)
            c.check(same(r, F(*pos, **kw, **{**g, **given})) and
                    same(r, (want, {**params, **g, **given})),
                    'function-evaluation', f'{r}')
            c.ev('evaluations')
        hist.append(op)
        for i, g in nodes:
            got = {k: z for k, z in i.params.items()
                   if k not in req or k in g}
            c.check(same(got, {**dflt, **g}), 'params',
                    f'{i.params} != {({**dflt, **g})}')
    if nodes:
        i, g = c.choice(nodes)
        if not extra:
            pos, kw, want = make_call(c, vs, vdef, kwv)
            full = {k: 0 for k in req}
            c.raises(TypeError, lambda: i(*pos, unknown=1, **full, **kw),
                     'unknown-parameter')
    c.sig(vs=vs, vdef=sorted(vdef), params=sorted(params), req=req, kwv=kwv,
          extra=extra, hist=hist)


@K01.section(300)
def equations(c):
    """user equations as managed objects: the parameters on record are
    those in effect, also if set up by the equation itself"""
    setup = c.choice(['none', 'scale', 'scale', 'derived'])

    class P(sd.SDE, sd.integrator):
        def more(self, unit=1., link=0.):
            if setup == 'scale':
                self.args['mu'] = self.args['mu']*unit
            elif setup == 'derived':
                self.args['sigma'] = self.args['mu'] + link

        def sde(self, t, x, mu=.5, sigma=.25):
            return {'dt': mu, 'dw': sigma}
    W = sd.kfunc(P)

    def effective(kw):
        kw = {**dict(unit=1., link=0., mu=.5, sigma=.25, x0=1.), **kw}
        if setup == 'scale':
            kw['mu'] = kw['mu']*kw['unit']
        elif setup == 'derived':
            kw['sigma'] = kw['mu'] + kw['link']
        return kw

    def some():
        return {k: float(c.rng.normal()) for k in ('unit', 'link', 'mu',
                                                   'sigma', 'x0')
                if c.chance(.5)}
    vs = c.choice([(), (2,)])
    given = [dict(paths=2, vshape=vs, **some())]
    objs = [W(**given[0])]
    tt = np.array([0., .5, 1.5])
    c.sig(setup=setup, vs=vs, given=sorted(given[0]))

    def watch():
        for o, kw in zip(objs, given):
            own = {k: v for k, v in kw.items() if k not in ('paths', 'rng',
                                                            'vshape')}
            e = effective(own)
            for k, v in e.items():
                c.close(np.asarray(o.params[k]), np.asarray(v),
                        'parameters-in-effect', f'{setup} {k} {kw}',
                        rtol=1e-12)
            c.check(o.params['paths'] == 2 and o.params['vshape'] == vs,
                    'parameters-in-effect', 'paths, vshape')
            g = np.random.default_rng(7)
            x = o(tt, rng=g)
            w = np.random.default_rng(7)
            want = np.full(vs + (2,), e['x0'])
            c.close(x.x[0], want, 'evaluation', setup)
            for i in range(2):
                dt = tt[i + 1] - tt[i]
                want = want + e['mu']*dt + e['sigma']*sd.wiener_source(
                    paths=2, vshape=vs, rng=w)(tt[i], dt)
                c.close(x.x[i + 1], want, 'evaluation', setup, rtol=1e-10)
            c.ev('evaluations')
    watch()
    for _ in range(c.int(1, 3)):
        i = c.int(0, len(objs) - 1)
        kw = some() or dict(mu=2.)
        objs.append(objs[i](**kw))
        given.append({**given[i], **kw})
        c.ev('derivations')
        watch()


@K01.section(400)
def rejected(c):
    """improper uses of the decorator"""
    k = c.choice(['positional-parameter', 'common-name', 'no-call',
                  'no-init', 'custom-new', 'function-no-nvar', 'class-nvar',
                  'nvar-zero', 'nvar-large', 'nvar-negative',
                  'positional-after-nvar', 'params-warning',
                  'undecorated-subclass', 'positional-variadic'])
    nm = str(c.choice(NAMES[:8]))
    v = str(c.choice(VARS))
    c.sig(k=k, nm=nm, v=v)

    def mk(init, call, new=False):
        ns = {}
        src = 'class K:\n'
        if init is not None:
            src += f'    def __init__({init}):\n        pass\n'
        if call is not None:
            src += f'    def __call__({call}):\n        return 1\n'
        if new:
            src += '    def __new__(cls):\n        pass\n'
        exec(src, ns)
        return ns['K']
    f = {}
    exec(f'def f({v}, w, *, {nm}=1, z=2):\n    return {v}, w, {nm}, z', f)
    exec(f'def g({v}, w, {nm}=1):\n    return 1', f)
    if k == 'positional-parameter':
        c.raises(TypeError, lambda: sd.kfunc(
            mk(f'self, {nm}=1', f'self, {v}')), k)
    elif k == 'positional-variadic':
        c.raises(TypeError, lambda: sd.kfunc(
            mk(f'self, *args, {nm}=1', f'self, {v}')), k)
    elif k == 'common-name':
        c.raises(TypeError, lambda: sd.kfunc(
            mk(f'self, *, {nm}=1, {v}=1', f'self, w, {v}')), k)
    elif k == 'no-call':
        c.raises(TypeError, lambda: sd.kfunc(mk('self', None)), k)
    elif k == 'no-init':
        c.raises(TypeError, lambda: sd.kfunc(mk(None, 'self')), k)
    elif k == 'custom-new':
        c.raises(TypeError, lambda: sd.kfunc(
            mk('self', f'self, {v}', True)), k)
    elif k == 'function-no-nvar':
        c.raises(SyntaxError, lambda: sd.kfunc(f['f']), k)
        c.raises(SyntaxError, lambda: sd.kfunc(), k)
        c.raises(SyntaxError, lambda: sd.kfunc(f['f'], nvar=2), k)
    elif k == 'class-nvar':
        c.raises(SyntaxError, lambda: sd.kfunc(nvar=1)(
            mk('self', f'self, {v}')), k)
        c.raises(SyntaxError, lambda: sd.kfunc(
            mk('self', f'self, {v}'), nvar=1), k)
    elif k == 'nvar-zero':
        c.raises(ValueError, lambda: sd.kfunc(nvar=0)(f['f']), k)
    elif k == 'nvar-negative':
        c.raises(ValueError, lambda: sd.kfunc(nvar=-1)(f['f']), k)
    elif k == 'nvar-large':
        c.raises(ValueError, lambda: sd.kfunc(nvar=c.int(5, 9))(f['f']), k)
        # the upper limit: no parameters
        W = sd.kfunc(nvar=4)(f['f'])
        c.check(W(5, 6, **{nm: 7, 'z': 8}) == (5, 6, 7, 8), k)
    elif k == 'positional-after-nvar':
        c.raises(TypeError, lambda: sd.kfunc(nvar=2)(f['g']), k)
        c.raises(TypeError, lambda: sd.kfunc(nvar=1)(f['f']), k)
    elif k == 'params-warning':
        K = mk(f'self, *, {nm}=1', f'self, {v}')
        K.params = 0
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            W = sd.kfunc(K)
        c.check(any(issubclass(z.category, RuntimeWarning) for z in w), k)
        c.check(W(**{nm: 3}).params == {nm: 3}, k)
    else:
        W = sd.kfunc(mk(f'self, *, {nm}=1', f'self, {v}'))
        seen = []

        class S(W):
            def __init__(self, *a, **b):
                seen.append((a, b))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            s = S(5, **{nm: 6})
        c.check(any(issubclass(z.category, RuntimeWarning) for z in w), k)
        # (otherwise, an ordinary subclass)
        c.check(type(s) is S and seen == [((5,), {nm: 6})], k)
        c.check(s(**{v: 2}) == 1, k)
        D = sd.kfunc(type('D', (W,), {}))
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            d = D(**{nm: 6})
            c.check(type(d) is D and d.params == {nm: 6}, k)
            c.check(D(7, **{nm: 6}) == 1 and d(7, **{nm: 1}) == 1, k)


# =====================================================================
K02 = new(
    'K02', 'every shortcut against the class it abbreviates, and every '
    'analytical function against its undecorated form, from identically '
    'seeded generators, with parameters given at instantiation, derivation '
    'or evaluation; non-trivial: distinct (shortcut, usage, parameters)',
    required=['values_compared', 'derivations'])
SOURCES = dict(dw='wiener_source', dn='poisson_source', dj='cpoisson_source',
               odd_dw='odd_wiener_source', even_dn='even_poisson_source',
               even_dj='even_cpoisson_source', true_dw='true_wiener_source',
               true_dn='true_poisson_source', true_dj='true_cpoisson_source')
PROCESSES = dict(wiener='wiener_process', lognorm='lognorm_process',
                 oruh='ornstein_uhlenbeck_process',
                 hwff='hull_white_process',
                 hw1f='hull_white_1factor_process',
                 cir='cox_ingersoll_ross_process',
                 heston_xy='full_heston_process', heston='heston_process',
                 jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process',
                 kou='kou_jumpdiff_process')
PP = dict(wiener=('x0', 'mu', 'sigma'), lognorm=('x0', 'mu', 'sigma'),
          oruh=('x0', 'theta', 'k', 'sigma'),
          hwff=('x0', 'theta', 'k', 'sigma', 'factors'),
          hw1f=('x0', 'theta', 'k', 'sigma'),
          cir=('x0', 'theta', 'k', 'xi'),
          heston=('x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi'),
          heston_xy=('x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi'),
          jumpdiff=('x0', 'mu', 'sigma', 'lam'),
          mjd=('x0', 'mu', 'sigma', 'lam', 'a', 'b'),
          kou=('x0', 'mu', 'sigma', 'lam', 'a', 'b', 'pa'))


def split(c, kw):
    a = {k: z for k, z in kw.items() if c.chance(.5)}
    return a, {k: z for k, z in kw.items() if k not in a}


def use(c, W, args, kw, junk, first=()):
    """all of the ways to evaluate W(**kw)(*args); junk: wrong values of
    parameters, to be overridden"""
    how = c.choice(['plain', 'once', 'override', 'derive', 'derive2',
                    'late'])
    a, b = split(c, kw)
    for k in first:
        a[k] = kw[k]
        b.pop(k, None)
    kw = {**{k: kw[k] for k in first}, **kw}
    if how == 'plain':
        r = W(**kw)(*args)
    elif how == 'once':
        r = W(*args, **kw)
    elif how == 'override':
        i = W(**{**junk, **a})
        r = i(*args, **{**{k: kw[k] for k in junk if k in kw}, **b})
        c.ev('derivations')
    elif how == 'derive':
        i = W(**{**junk, **a})
        d = {**{k: kw[k] for k in junk if k in kw}, **b}
        r = (i(**d) if d else i)(*args)
        c.ev('derivations')
    elif how == 'derive2':
        i = W()
        for k in kw:
            i = i(**{k: kw[k]})
        r = i(*args)
        c.ev('derivations')
    else:
        r = W()(*args, **kw)
        c.ev('derivations')
    return how, r


@K02.section(1500)
def sources(c):
    s = c.choice(list(SOURCES))
    W, K = getattr(sd, s), getattr(sd, SOURCES[s])
    c.check(sd.iskfunc(W) and not sd.iskfunc(K) and issubclass(W, K),
            'shortcut-type', s)
    vshape = gen.dims(c, 2, 3)
    paths = 2*c.int(1, 3)
    kw = dict(paths=paths, vshape=vshape)
    if 'dw' in s and vshape and vshape[-1] == 2 and c.chance(.6):
        kw['rho'] = .5
    if 'dn' in s or 'dj' in s:
        if c.chance(.7):
            kw['lam'] = c.choice([.5, 3.])
    if 'dj' in s and c.chance(.5):
        kw['y'] = sd.norm_rv(a=1., b=.2)
    junk = {k: z for k, z in dict(paths=8, vshape=(5,)).items()
            if c.chance(.5) and not (k == 'vshape' and 'rho' in kw)}
    seed = c.index
    t, dt = float(c.rng.random()), .1 + float(c.rng.random())
    true = s.startswith('true')
    args = (t, dt)
    kw['rng'] = np.random.default_rng(seed)
    want = K(**kw)(*args)
    kw['rng'] = np.random.default_rng(seed)
    how, got = use(c, W, args, kw, junk,
                   first=('vshape',) if 'rho' in kw else ())
    c.sig(s=s, how=how, kw=sorted(kw), vshape=vshape, paths=paths)
    c.check(type(got) is type(want) and got.dtype == want.dtype,
            'shortcut-result-type', s)
    c.equal(got, want, 'shortcut-source', s)
    if true:
        # an instance keeps its memory
        kw['rng'] = np.random.default_rng(seed)
        i = W(**kw)
        a, b = i(t, dt), i(t, dt)
        c.equal(a, b, 'shortcut-memory', s)
        n = i.size
        tt = c.rng.random(3)
        x = np.array([i(z) for z in tt])
        c.equal(np.array([i(z) for z in tt]), x, 'shortcut-memory', s)
        # a derived instance does not share it
        j = i(rtol=0.)
        c.check(j.size == K(**kw).size and i.size >= n and
                i.size > j.size, 'shortcut-derived-memory')


@K02.section(1500)
def processes(c):
    s = c.choice(list(PROCESSES))
    W, K = getattr(sd, s), getattr(sd, PROCESSES[s])
    c.check(sd.iskfunc(W) and not sd.iskfunc(K) and issubclass(W, K),
            'shortcut-type', s)
    vshape = gen.dims(c, 2, 3)
    kw = dict(paths=c.int(1, 5), vshape=vshape)
    for k in PP[s]:
        if c.chance(.5):
            kw[k] = float(.2 + .6*c.rng.random())
    if 'factors' in kw:
        kw['factors'] = c.int(1, 3)
    if c.chance(.3):
        kw['steps'] = c.int(2, 9)
    if c.chance(.3):
        kw['i0'] = c.choice([1, -1])
    tt = np.cumsum(.1 + c.rng.random(c.int(2, 5)))
    junk = {k: z for k, z in dict(paths=7, vshape=(2,), steps=3,
                                  x0=.77).items() if c.chance(.4)}
    junk = {k: z for k, z in junk.items() if k in kw}
    seed = c.index
    kw['rng'] = np.random.default_rng(seed)
    want = K(**kw)(tt)
    kw['rng'] = np.random.default_rng(seed)
    how, got = use(c, W, (tt,), kw, junk)
    c.sig(s=s, how=how, kw=sorted(kw), vshape=vshape, n=tt.size)
    c.check(type(got) is type(want), 'shortcut-result-type', s)
    a, b = (got, want) if isinstance(want, tuple) else ((got,), (want,))
    c.check(len(a) == len(b), 'shortcut-process')
    for x, y in zip(a, b):
        c.check(type(x) is sd.process, 'shortcut-result-type', s)
        c.equal(x.t, y.t, 'shortcut-process', s)
        c.equal(x.x, y.x, 'shortcut-process', s)
    # parameters on record
    i = W(**kw)
    pr = i.params
    for k, z in kw.items():
        c.check(pr[k] is z or pr[k] == z, 'shortcut-params', k)
    names = set(inspect.signature(K).parameters) - {'self'}
    c.check(set(PP[s]) <= set(pr), 'shortcut-params', s)
    # evaluation does not affect parameters on record
    i(tt)
    c.check(same({k: pr[k] for k in kw}, {k: i.params[k] for k in kw}) and
            set(i.params) == set(pr), 'shortcut-params-stable', s)
    d = i(x0=.123)
    c.check(d.params['x0'] == .123 and
            (i.params['x0'] == kw['x0'] if 'x0' in kw
             else i.params['x0'] != .123), 'shortcut-derived-params', s)
    c.check(same({k: z for k, z in d.params.items() if k != 'x0'},
                 {k: z for k, z in i.params.items() if k != 'x0'}),
            'shortcut-derived-params', s)


ONE = [f'{f}_{s}' for f in ('wiener', 'lognorm', 'oruh', 'hw1f', 'hw2f',
                            'cir') for s in ('mean', 'var', 'std')] + \
    ['heston_log_mean', 'heston_log_var', 'heston_log_std', 'mjd_mean',
     'kou_mean']
TWO = ['wiener_pdf', 'wiener_cdf', 'wiener_chf', 'lognorm_pdf',
       'lognorm_cdf', 'lognorm_log_chf', 'oruh_pdf', 'oruh_cdf', 'hw1f_pdf',
       'hw1f_cdf', 'hw2f_pdf', 'hw2f_cdf', 'cir_pdf', 'heston_log_chf',
       'mjd_log_chf', 'kou_log_chf', 'bsd1d2', 'bscall', 'bscall_delta',
       'bsput', 'bsput_delta']


@K02.section(2500)
def analytical(c):
    nv = c.choice([1, 2])
    name = c.choice(ONE if nv == 1 else TWO)
    W = getattr(sd, name)
    c.check(sd.iskfunc(W), 'function-type', name)
    F = W.__wrapped__
    sig = list(inspect.signature(F).parameters.values())
    c.check(len([p for p in sig if p.kind != p.KEYWORD_ONLY]) == nv,
            'function-variables', name)
    names = [p.name for p in sig if p.kind == p.KEYWORD_ONLY]
    kw = {k: float(.2 + .6*c.rng.random()) for k in names if c.chance(.5)}
    junk = {k: .5 for k in kw if c.chance(.3)}
    args = tuple(.3 + c.rng.random(3) for _ in range(nv))
    want = F(*args, **kw)
    how, got = use(c, W, args, kw, junk)
    c.sig(name=name, how=how, kw=sorted(kw))
    if isinstance(want, tuple):
        for a, b in zip(got, want):
            c.equal(a, b, 'function-values', name)
    else:
        c.equal(got, want, 'function-values', name)
    i = W(**kw)
    dflt = {p.name: p.default for p in sig if p.kind == p.KEYWORD_ONLY}
    c.check(same(i.params, {**dflt, **kw}), 'function-params', name)
    c.equal(np.asarray(i(*args)), np.asarray(want), 'function-values', name)
    v = [p.name for p in sig if p.kind != p.KEYWORD_ONLY]
    c.equal(np.asarray(W(**dict(zip(v, args)), **kw)), np.asarray(want),
            'function-keyword-variables', name)


# ---------------------------------------------------------------------
# K03: defaults, as documented

K03 = new(
    'K03', 'every class and function, evaluated with a random subset of its '
    'parameters and, from an identically seeded generator, with all others '
    'given explicitly at their documented defaults (typed in here from the '
    'documentation); parameters given by position in the documented order; '
    'non-trivial: distinct (object, parameters given, how)',
    required=['values_compared', 'omitted', 'by_position'])

_src = dict(paths=1, vshape=(), dtype=None)
_true = dict(rtol='max', t0=0., z0=0.)
_cp = dict(dn=None, ptype=int, lam=1., y=('uniform_rv', (0, 1)))
SRC_DEFAULTS = dict(
    wiener_source=dict(_src, corr=None, rho=None),
    poisson_source=dict(_src, dtype=int, lam=1.),
    cpoisson_source=dict(_src, **_cp),
    odd_wiener_source=dict(_src, paths=2, corr=None, rho=None),
    even_poisson_source=dict(_src, paths=2, lam=1.),
    even_cpoisson_source=dict(_src, paths=2, **_cp),
    true_wiener_source=dict(_src, corr=None, rho=None, **_true),
    true_poisson_source=dict(dict(_src, dtype=int), lam=1.,
                             **dict(_true, z0=0)),
    true_cpoisson_source=dict(_src, **_cp, **_true))
_proc = dict(paths=1, vshape=(), dtype=None, steps=None, i0=0, info=None,
             getinfo=True, method='euler')
_dw = dict(dw=None, corr=None, rho=None)
_dj = dict(dj=None, dn=None, ptype=int, lam=1.)
_gbm = dict(x0=1., mu=0., sigma=1.)
_hw = dict(x0=0., theta=0., k=1., sigma=1.)
_hes = dict(_gbm, y0=1., theta=1., k=1., xi=1.)
PROC_DEFAULTS = dict(
    wiener_process=dict(_proc, **dict(_gbm, x0=0.), **_dw),
    lognorm_process=dict(_proc, **_gbm, **_dw),
    ornstein_uhlenbeck_process=dict(_proc, **_hw, **_dw),
    hull_white_process=dict(_proc, factors=1, **_hw, **_dw),
    hull_white_1factor_process=dict(_proc, **_hw, **_dw),
    cox_ingersoll_ross_process=dict(_proc, x0=1., theta=1., k=1., xi=1.,
                                    **_dw),
    full_heston_process=dict(_proc, **_hes, **_dw),
    heston_process=dict(_proc, **_hes, **_dw),
    jumpdiff_process=dict(_proc, **_gbm, **_dw, **_dj, y=None),
    merton_jumpdiff_process=dict(_proc, **_gbm, **_dw, **_dj, a=0., b=1.),
    kou_jumpdiff_process=dict(_proc, **_gbm, **_dw, **_dj, a=.5, b=.5,
                              pa=.5))
RV_DEFAULTS = dict(norm_rv=dict(a=0, b=1), uniform_rv=dict(a=0, b=1),
                   exp_rv=dict(a=1), double_exp_rv=dict(a=1, b=1, pa=.5))
_hw2 = dict(x0=(0., 0.), theta=(0., 0.), k=(1., 1.), sigma=(1., 1.), rho=0.)
_mjd = dict(_gbm, lam=1., a=0., b=1.)
_kou = dict(_gbm, lam=1., a=.5, b=.5, pa=.5)
_hesrho = dict(_hes, rho=0.)
_bs = dict(x0=1., r=0., q=0., sigma=1.)
FUN_DEFAULTS = {}
for _n, _d, _s in (
        ('wiener', dict(_gbm, x0=0.), 'mean var std pdf cdf chf'),
        ('lognorm', _gbm, 'mean var std pdf cdf log_chf'),
        ('oruh', _hw, 'mean var std pdf cdf'),
        ('hw1f', _hw, 'mean var std pdf cdf'),
        ('hw2f', _hw2, 'mean var std pdf cdf'),
        ('cir', dict(x0=1., theta=1., k=1., xi=1.), 'mean var std pdf'),
        ('heston', _hesrho, 'log_mean log_var log_std log_chf'),
        ('mjd', _mjd, 'mean log_chf'), ('kou', _kou, 'mean log_chf')):
    for _k in _s.split():
        FUN_DEFAULTS[f'{_n}_{_k}'] = _d
for _n, _d in (('heston', _hesrho), ('mjd', _mjd), ('kou', _kou)):
    FUN_DEFAULTS[f'{_n}_log_pdf'] = _d
for _k in ('bsd1d2', 'bscall', 'bsput', 'bscall_delta', 'bsput_delta'):
    FUN_DEFAULTS[_k] = _bs


def param(c, name, k, d):
    """a legal value of parameter k, other than the default (d)"""
    u = float(c.rng.random())
    if k == 'paths':
        return 2*c.int(1, 3)
    if k == 'vshape':
        return c.choice([(2,), (1, 2), 3])
    if k == 'dtype':
        return c.choice([float, np.float64])
    if k == 'steps':
        return c.int(2, 9)
    if k == 'i0':
        return c.choice([1, -1])
    if k == 'factors':
        return 2
    if k == 'getinfo':
        return False
    if k == 'ptype':
        return np.int64
    if k == 'lam':
        return .2 + 3*u
    if k == 'pa':
        return .1 + .8*u
    if k == 'y':
        return sd.norm_rv(a=1 + u, b=.5)
    if k == 'rtol':
        return 1e-9
    if k == 't0':
        return -u
    if k == 'z0':
        return 3
    if k == 'rho' and d is not None:
        return u - .5
    if isinstance(d, tuple) and len(d) == 2:
        return (.2 + .6*u, .3)
    if k in ('theta', 'x0', 'y0', 'sigma', 'k', 'xi', 'mu', 'a', 'b', 'r',
             'q'):
        return .2 + .6*u
    return None


def given(c, name, dflt):
    """a random subset of the parameters, with values, and the full set"""
    kw = {}
    if 'rtol' in dflt and c.chance(.5):
        kw['t0'] = -.5
    for k, d in dflt.items():
        if k not in kw and c.chance(.35):
            v = param(c, name, k, d)
            if v is not None:
                kw[k] = v
    if name.startswith('hw2f') and 'k' in kw:
        kw['k'] = (.3, .7)
    full = dict(dflt)
    if isinstance(full.get('y'), tuple):
        full['y'] = getattr(sd, full['y'][0])(*full['y'][1])
    full.update(kw)
    c.ev('omitted', len(full) - len(kw))
    c.sig(name=name, kw=sorted(kw))
    return kw, full


def explicit(c, kw, full):
    """some or all of the omitted parameters, explicitly"""
    p = c.choice([.5, 1.])
    return {k: z for k, z in full.items() if k in kw or c.chance(p)}


@K03.section(1200)
def source_defaults(c):
    name = c.choice(list(SRC_DEFAULTS))
    K = getattr(sd, name)
    kw, full = given(c, name, SRC_DEFAULTS[name])
    a = K(**kw, rng=np.random.default_rng(c.index))
    b = K(**explicit(c, kw, full), rng=np.random.default_rng(c.index))
    vshape = full['vshape']
    shape = ((vshape,) if isinstance(vshape, int) else vshape) + \
        (full['paths'],)
    for k in range(c.int(1, 4)):
        t, dt = float(c.rng.random()), .1 + float(c.rng.random())
        x, y = a(t, dt), b(t, dt)
        c.check(x.dtype == y.dtype, 'default-dtype', name)
        want = full['dtype']
        if want is not None or 'wiener' in name:
            c.check(x.dtype == np.dtype(want or float), 'default-dtype',
                    f'{name} {x.dtype}')
        c.check(x.shape == shape, 'default-shape', f'{name} {x.shape}')
        c.equal(x, y, 'default-source', f'{name} {sorted(kw)}')
    if 't0' in full:
        c.equal(np.broadcast_to(a(full['t0']), shape),
                np.full(shape, full['z0'], x.dtype), 'default-start', name)


@K03.section(1200)
def process_defaults(c):
    name = c.choice(list(PROC_DEFAULTS))
    K = getattr(sd, name)
    kw, full = given(c, name, PROC_DEFAULTS[name])
    tt = np.cumsum(.1 + c.rng.random(c.int(2, 4)))
    a = K(**kw, rng=np.random.default_rng(c.index))
    b = K(**explicit(c, kw, full), rng=np.random.default_rng(c.index))
    x, y = a(tt), b(tt)
    if not isinstance(x, tuple):
        x, y = (x,), (y,)
    c.check(len(x) == len(y), 'default-process', name)
    for p, q in zip(x, y):
        c.check(type(p) is sd.process and p.dtype == q.dtype,
                'default-process', name)
        c.equal(p.t, q.t, 'default-process', name)
        c.equal(p.x, q.x, 'default-process', f'{name} {sorted(kw)}')
    if 'x0' not in kw:
        v = PROC_DEFAULTS[name]['x0']*full.get('factors', 1)
        c.equal(x[0].x[full['i0']], np.full(x[0].shape[1:], v, float),
                'default-start', name)
    c.check(all(a.info[k] == b.info[k] for k in (
        'computed_steps', 'stored_steps')) if full['getinfo']
        else not a.info, 'default-info', f'{name} {a.info}')


class traced(sd.paths_generator):
    """a Wiener-like process, from paths_generator"""
    depth = 2

    def begin(self):
        self.itervars['xw'][0][...] = 1.

    def next(self):
        iv = self.itervars
        iv['xw'][1][...] = iv['xw'][0].sum() + iv['sw'][1]

    def store(self, i, k):
        self.itervars['xx'][i] = self.itervars['xw'][k].sum()

    def end(self):
        pass

    def exit(self, tt, xx):
        return sd.process(tt, x=xx)


class stepped(sd.integrator):
    def begin(self):
        self.itervars['xw'][0][...] = 0.

    def next(self):
        iv = self.itervars
        iv['xw'][1][...] = iv['xw'][0] + (iv['sw'][1] - iv['sw'][0])**2

    def store(self, i, k):
        self.itervars['xx'][i] = self.itervars['xw'][k]

    def end(self):
        pass

    def exit(self, tt, xx):
        return sd.process(tt, x=xx)


@K03.section(600)
def generator_defaults(c):
    """paths_generator and integrator, as base classes"""
    dflt = dict(paths=1, xshape=(), wshape=(), dtype=None, steps=None, i0=0,
                info=None, getinfo=True)
    name = c.choice(['traced', 'stepped'])
    cls = dict(traced=traced, stepped=stepped)[name]
    if name == 'stepped':
        dflt['method'] = 'euler'
    kw = {}
    vs = c.choice([(2,), (1, 2)])
    alt = dict(paths=3, xshape=vs, wshape=vs, dtype=np.float32, steps=4,
               i0=c.choice([1, -1]), info=dict(mine=1), getinfo=False,
               method='euler')
    for k in dflt:
        if c.chance(.3):
            kw[k] = alt[k]
    if name == 'stepped' and ('xshape' in kw) != ('wshape' in kw):
        kw['xshape'] = kw['wshape'] = vs
    full = {**dflt, **kw}
    c.sig(name=name, kw=sorted(kw))
    c.ev('omitted', len(full) - len(kw))
    copy = lambda d: {k: dict(z) if isinstance(z, dict) else z
                      for k, z in d.items()}
    tt = np.cumsum(.1 + c.rng.random(c.int(2, 4)))
    a, b = cls(**copy(kw)), cls(**copy(explicit(c, kw, full)))
    x, y = a(tt), b(tt)
    sh = (tt.size,) + full['xshape'] + (full['paths'],)
    c.check(x.shape == y.shape == sh, 'default-shape', f'{x.shape} {sh}')
    c.check(x.dtype == y.dtype == np.dtype(full['dtype'] or float),
            'default-dtype', name)
    c.equal(x.x, y.x, 'default-process', f'{name} {sorted(kw)}')
    for p in (a, b):
        if full['getinfo']:
            c.check('computed_steps' in p.info and 'stored_steps' in p.info,
                    'default-info', f'{name} {p.info}')
        c.check(full['getinfo'] or set(p.info) <= {'mine'}, 'default-info',
                f'{name} {p.info}')
        c.check(full['info'] is None or p.info['mine'] == 1, 'default-info')


@K03.section(600)
def rv_defaults(c):
    name = c.choice(list(RV_DEFAULTS))
    F, dflt = getattr(sd, name), RV_DEFAULTS[name]
    kw, full = given(c, name, dflt)
    if name == 'uniform_rv' and kw.get('a', 0) >= kw.get('b', 1):
        kw = {}
        full = dict(dflt)
    variants = [F(**kw), F(**full), F(*[full[k] for k in dflt])]
    c.ev('by_position')
    if c.chance(.3):
        # the same, at each time
        variants.append(F(**{k: (lambda t, z=z: z*t)
                             for k, z in full.items()})(1.))
        if kw:
            variants.append(F(**{k: (lambda t, z=z: z*t)
                                 for k, z in kw.items()})(1.))
    ref = variants[0]
    for v in variants[1:]:
        for m in ('mean', 'var', 'std', 'exp_mean'):
            c.equal(getattr(v, m)(), getattr(ref, m)(), 'default-moments',
                    f'{name} {m} {sorted(kw)}')
        seed = c.index
        c.equal(v.rvs(size=(3, 2), random_state=np.random.default_rng(seed)),
                ref.rvs(size=(3, 2),
                        random_state=np.random.default_rng(seed)),
                'default-rvs', name)


@K03.section(2500)
def function_defaults(c):
    name = c.choice(list(FUN_DEFAULTS))
    W, dflt = getattr(sd, name), FUN_DEFAULTS[name]
    kw, full = given(c, name, dflt)
    two = name in TWO or name.endswith('_log_pdf')
    args = tuple(.3 + c.rng.random(c.choice([(), (3,)]))
                 for _ in range(2 if two else 1))
    if name.endswith('_log_pdf'):
        args = (float(.3 + c.rng.random()), float(c.rng.normal()))
    F = c.choice([W, W.__wrapped__])
    a, b = F(*args, **kw), F(*args, **explicit(c, kw, full))
    v = (('k' if name[:2] == 'bs' else 't',)
         + ('t' if name[:2] == 'bs' else 'u' if name[-3:] == 'chf'
            else 'logx' if name.endswith('_log_pdf') else 'x',))[:len(args)]
    d = F(**dict(zip(v, args)), **full)
    c.ev('by_position', len(args))
    for x, y, z in zip(*((k,) if not isinstance(k, tuple) else k
                         for k in (a, b, d))):
        c.equal(x, y, 'default-function', f'{name} {sorted(kw)}')
        c.equal(x, z, 'default-function', f'{name} {sorted(kw)} keywords')


@K03.section(600)
def statistics_defaults(c):
    """processes and montecarlo"""
    if c.chance(.3):
        n = c.int(1, 5)
        x = c.rng.normal(size=(1, 2, 3))
        p = sd.process(x=x)
        c.equal(p.t, np.zeros(1), 'default-time')
        t = np.sort(c.rng.random(n))
        x = c.rng.normal(size=(n, 2, 3))
        p = sd.process(t, x=x)
        s = c.rng.random(4)*1.5 - .25
        c.check(p.interp_kind == 'linear', 'default-kind')
        c.equal(p(s), p(s, kind='linear'), 'default-kind')
        q = sd.process(v=c.rng.normal(size=(1, 2)))
        c.check(q.shape[0] == 1 and q.t == 0, 'default-time')
        v = c.rng.normal(size=(n, 2))
        if n > 1:
            a, b = sd.piecewise(t, v=v), sd.piecewise(t, v=v, mode='mid')
            c.equal(a.t, b.t, 'default-piecewise')
            c.equal(a.x, b.x, 'default-piecewise')
        c.sig(k='process', n=n)
        c.ev('omitted', 2)
        return
    dflt = dict(axis=-1, bins=100, range=None, use='all', dtype=None,
                ctype=np.int64)
    x = c.rng.normal(size=(4, 6))
    kw = {}
    for k, z in dict(axis=0, bins=c.int(1, 9), range=(-1., 1.),
                     use='even', dtype=np.float64,
                     ctype=np.int32).items():
        if c.chance(.3):
            kw[k] = z
    full = {**dflt, **kw}
    c.sig(k='montecarlo', kw=sorted(kw))
    c.ev('omitted', len(full) - len(kw))
    a = sd.montecarlo(x, **kw)
    b = sd.montecarlo(x, *full.values())
    c.ev('by_position', len(full))
    d = sd.montecarlo(**{k: z for k, z in kw.items()
                         if k not in ('axis',)})
    d.update(x, **{k: z for k, z in kw.items() if k == 'axis'})
    vs = (4,) if full['axis'] == -1 else (6,)
    c.check(a.vshape == vs, 'default-axis')
    for o in (b, d):
        c.check(o.vshape == a.vshape and o.paths == a.paths,
                'default-montecarlo', f'{sorted(kw)}')
        for m in ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr'):
            c.equal(getattr(o, m)(), getattr(a, m)(), 'default-montecarlo',
                    m)
        for i in range(vs[0]):
            h, g = a[i].histogram(), o[i].histogram()
            c.equal(h[0], g[0], 'default-histogram')
            c.equal(h[1], g[1], 'default-histogram')
            c.check(h[0].size == full['bins'], 'default-bins')
            y = c.rng.normal(size=3)
            for m in ('pdf', 'cdf'):
                c.equal(getattr(a[i], m)(y),
                        getattr(o[i], m)(y, 'gaussian_kde', 1.),
                        'default-estimate', m)


@K03.section(900)
def method_defaults(c):
    """optional parameters of the methods of processes, by position"""
    n, V, m = c.int(2, 4), c.int(2, 3), c.int(2, 4)
    t = np.cumsum(.1 + c.rng.random(n))
    p = sd.process(t, x=c.rng.normal(size=(n, V, m)))
    k = c.choice(['summary']*4 + ['tdiff', 'chf', 'new', 'rv'])
    c.ev('by_position')
    c.ev('omitted', 1)
    if k == 'summary':
        d, f = c.choice('pvt'), c.choice(
            ['min', 'max', 'sum', 'mean', 'var', 'std'])
        ax = {'p': 2, 'v': 1, 't': 0}[d]
        g = getattr(p, d + f)
        pars = dict(dtype=c.choice([None, float]),
                    out=c.choice([None, 'array', 'process']),
                    ddof=c.choice([0, 1]))
        if f in ('min', 'max'):
            del pars['dtype']
        if f not in ('var', 'std'):
            del pars['ddof']
        j = c.int(0, len(pars))
        pars = dict(list(pars.items())[:j])   # the others are omitted
        sh = (n, m) if d == 'v' else tuple(
            1 if i == ax else s for i, s in enumerate(p.shape))
        if pars.get('out'):
            o = np.zeros(sh)
            pars['out'] = o if pars['out'] == 'array' or d == 't' else \
                sd.process(t, x=o)
        c.sig(k=k, m=d + f, j=j, out=type(pars.get('out')).__name__)
        kw = {} if pars.get('ddof', 0) == 0 else dict(ddof=1)
        want = getattr(p.x, f)(axis=ax, keepdims=(d != 'v'), **kw)
        got = [g(*pars.values())]
        if pars.get('out') is not None:
            got.append(pars['out'])
        for z in got + [g(**pars)]:
            c.close(np.asarray(z), want, 'method-position',
                    f'{d + f} {list(pars)}')
    elif k == 'tdiff':
        e, w = c.choice([0, 1, .5]), c.choice([True, False])
        c.sig(k=k, e=e, w=w)
        dt, dx = np.diff(t)[:, None, None], np.diff(p.x, axis=0)
        for q, e1, w1 in ((p.tdiff(), 0, True), (p.tdiff(e), e, True),
                          (p.tdiff(e, w), e, w),
                          (p.tdiff(fwd=w), 0, w)):
            c.close(q.x, dx/dt**e1, 'method-position', 'tdiff')
            c.equal(q.t, t[:-1] if w1 else t[1:], 'method-position', 'tdiff')
    elif k == 'chf':
        u = c.rng.normal(size=c.choice([(), (3,)]))
        s = c.rng.random(2)
        c.sig(k=k, u=u.shape)
        for f, v in (('chf', 'u'), ('cdf', 'x')):
            g = getattr(p, f)
            a = g(t, u)
            for b in (g(u), g(None, u), g(**{v: u}), g(t=t, **{v: u})):
                c.close(b, a, 'method-position', f, rtol=1e-13)
            c.equal(g(s, u), g(**{'t': s, v: u}), 'method-position', f)
    elif k == 'new':
        x = c.rng.normal(size=(n, V, m))
        v = c.rng.normal(size=(n, V))
        c.sig(k=k)
        for q in (sd.process(t, x=x), sd.process(t=t, x=x),
                  sd.process(t, x=x, dtype=None, v=None, c=None)):
            c.equal(q.t, t, 'method-position')
            c.equal(q.x, x, 'method-position')
        for q in (sd.piecewise(t, v=v), sd.piecewise(t=t, v=v, x=None,
                                                     dtype=None)):
            r = sd.piecewise(t, v=v, mode='mid')
            c.equal(q.t, r.t, 'method-position')
            c.equal(q.x, r.x, 'method-position')
    else:
        name = c.choice(list(RV_DEFAULTS))
        y = getattr(sd, name)()
        sz = c.choice([(), 3, (2, 3)])
        c.sig(k=k, name=name, sz=sz)
        g = lambda: np.random.default_rng(c.index)
        a = y.rvs(sz, g())
        c.check(np.shape(a) == (sz if isinstance(sz, tuple) else (sz,)),
                'method-position')
        c.equal(y.rvs(size=sz, random_state=g()), a, 'method-position')
        y.rvs(sz)      # a default generator
